From 986afa8ed8e912177e06291b18600950b431906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:41 +0000
Subject: [PATCH 01/50] fix: HTML-escape operator names and unknown command
 names in the output

---
 crates/mathml-renderer/src/ast.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/mathml-renderer/src/ast.rs b/crates/mathml-renderer/src/ast.rs
index 5f77263..4964a50 100644
--- a/crates/mathml-renderer/src/ast.rs
+++ b/crates/mathml-renderer/src/ast.rs
@@ -356,7 +356,7 @@ impl<'state> Emitter<'state> {
                 name,
             } => {
                 emit_operator_attributes(&mut self.s, attrs, left, right)?;
-                write!(self.s, ">{name}</mo>")?;
+                write!(self.s, ">{}</mo>", EscapeHtml(name))?;
             }
             Node::IdentifierStr(letters) => {
                 // The "<mrow>" with "<mspace/>" is needed to prevent Firefox from adding
@@ -812,8 +812,9 @@ impl<'state> Emitter<'state> {
                 self.warnings.set_unknown_commands();
                 write!(
                     self.s,
-                    r#"<merror class="{}"><mtext>\{cmd_name}</mtext></merror>"#,
-                    self.css_classes.unknown_command
+                    r#"<merror class="{}"><mtext>\{}</mtext></merror>"#,
+                    self.css_classes.unknown_command,
+                    EscapeHtml(cmd_name)
                 )?;
             }
         }
-- 
2.43.0


From d3af21bdc9a1c804bb7c9bd9bc73d30ca4102eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:20 +0000
Subject: [PATCH 02/50] fix: limit switches and infix fractions to their table
 cell and reject & inside groups

A style, colour or font switch and an infix fraction used to run past the & and
\\ of the table they were in, and & inside a nested group was accepted; both
ended in a ColumnSeparator node outside of a table, which panics in debug builds
and silently loses the cell structure otherwise.
---
 crates/math-core/src/environments.rs | 16 +++++-
 crates/math-core/src/parser.rs       | 76 ++++++++++++++++++++--------
 2 files changed, 70 insertions(+), 22 deletions(-)

diff --git a/crates/math-core/src/environments.rs b/crates/math-core/src/environments.rs
index f4d4796..bd240ac 100644
--- a/crates/math-core/src/environments.rs
+++ b/crates/math-core/src/environments.rs
@@ -11,7 +11,10 @@ use mathml_renderer::{
     table::{Alignment, ArraySpec, EquationTag, LineType, RowLabelInfo},
 };
 
-use crate::character_class::{StretchableOp, fenced};
+use crate::{
+    character_class::{StretchableOp, fenced},
+    token::Token,
+};
 
 static ENVIRONMENTS: phf::Map<&'static str, Env> = phf::phf_map! {
     "array" => Env::Array,
@@ -325,6 +328,17 @@ pub struct EnvState<'arena> {
     pub numbered: Option<NumberedEnvState<'arena>>,
 }
 
+impl EnvState<'_> {
+    /// `true` for tokens which end the current cell of a table-like environment.
+    pub(super) fn ends_cell(&self, token: &Token) -> bool {
+        match token {
+            Token::NewColumn => self.allow_columns,
+            Token::NewLine => self.meaningful_newlines,
+            _ => false,
+        }
+    }
+}
+
 #[derive(Clone, Copy, Debug, Default, PartialEq)]
 pub(super) enum NumberingMode {
     #[default]
diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index ad6ce85..4af9843 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -78,17 +78,22 @@ struct ParserState<'arena> {
 enum SequenceEnd {
     EndToken(EndToken),
     AnyEndToken,
+    /// The end of a cell in a table-like environment, i.e., a `&`, a `\\` or the `\end`.
+    TableCell,
 }
 
 impl SequenceEnd {
     #[inline]
-    fn matches(self, other: &Token) -> bool {
+    fn matches(self, other: &Token, env: &EnvState<'_>) -> bool {
         match self {
             SequenceEnd::EndToken(token) => token.matches(other),
-            SequenceEnd::AnyEndToken => matches!(
-                other,
-                Token::Eoi | Token::GroupEnd | Token::End(_) | Token::Right
-            ),
+            SequenceEnd::AnyEndToken => {
+                matches!(
+                    other,
+                    Token::Eoi | Token::GroupEnd | Token::End(_) | Token::Right
+                ) || env.ends_cell(other)
+            }
+            SequenceEnd::TableCell => EndToken::End.matches(other) || env.ends_cell(other),
         }
     }
 }
@@ -210,9 +215,18 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         let mut prev_class = prev_class;
         let old_tf = self.state.transform;
         let old_style = self.state.style;
+        // `&` and `\\` only separate cells at the top level of a table, but not within a group.
+        let old_separators = (
+            self.state.env.allow_columns,
+            self.state.env.meaningful_newlines,
+        );
+        if matches!(sequence_end, SequenceEnd::EndToken(_)) {
+            self.state.env.allow_columns = false;
+            self.state.env.meaningful_newlines = false;
+        }
 
         // Because we don't want to consume the end token, we just peek here.
-        while !sequence_end.matches(self.tokens.peek().token()) {
+        while !sequence_end.matches(self.tokens.peek().token(), &self.state.env) {
             // Check whether we need to collect letters.
             let (class, target) = if let Some(collected) = self.merge_and_transform_letters()? {
                 collected
@@ -298,6 +312,10 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         }
         self.state.transform = old_tf;
         self.state.style = old_style;
+        (
+            self.state.env.allow_columns,
+            self.state.env.meaningful_newlines,
+        ) = old_separators;
         Ok(nodes)
     }
 
@@ -312,12 +330,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         let span = tokspan.span().into();
         let result: Result<(), LatexError> = match *tokspan.token() {
             Token::Eoi => {
-                if let SequenceEnd::EndToken(end_token) = sequence_end {
-                    // The input has ended without the closing token.
-                    Err(LatexError(span, LatexErrKind::UnclosedGroup(end_token)))
-                } else {
-                    return Ok(ControlFlow::ProcessToken);
-                }
+                let end_token = match sequence_end {
+                    SequenceEnd::EndToken(end_token) => end_token,
+                    SequenceEnd::TableCell => EndToken::End,
+                    SequenceEnd::AnyEndToken => return Ok(ControlFlow::ProcessToken),
+                };
+                // The input has ended without the closing token.
+                Err(LatexError(span, LatexErrKind::UnclosedGroup(end_token)))
             }
             Token::InfixGenFrac { with_line, delim } => {
                 if infix_frac.is_none() {
@@ -1481,13 +1500,28 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 let old_style = mem::replace(&mut self.state.style, env.style());
                 let old_env_state = mem::replace(&mut self.state.env, env.new_state());
 
-                let content = self.arena.push_slice(&self.parse_sequence_if_in_sequence(
-                    parse_as,
-                    span,
-                    SequenceEnd::EndToken(EndToken::End),
-                    Class::Open,
-                    true, // keep_end_token
-                )?);
+                // We parse the cells one by one, because the effect of switch-like commands
+                // (`\displaystyle`, `\color`, `\over`, ...) is limited to the cell they are in.
+                let mut content = Vec::new();
+                let mut cell_prev_class = Class::Open;
+                loop {
+                    content.append(&mut self.parse_sequence_if_in_sequence(
+                        parse_as,
+                        span,
+                        SequenceEnd::TableCell,
+                        cell_prev_class,
+                        true, // keep_end_token
+                    )?);
+                    if !self.state.env.ends_cell(self.tokens.peek().token()) {
+                        break;
+                    }
+                    let separator = self.next_token();
+                    let (class, node) =
+                        self.parse_token(separator, ParseAs::Sequence, cell_prev_class)?;
+                    content.push(node);
+                    cell_prev_class = class;
+                }
+                let content = self.arena.push_slice(&content);
 
                 self.state.style = old_style;
                 let env_state = mem::replace(&mut self.state.env, old_env_state);
@@ -1687,7 +1721,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 ));
             }
             Token::NewColumn => {
-                if self.state.env.allow_columns {
+                if self.state.env.allow_columns && matches!(parse_as, ParseAs::Sequence) {
                     class = Class::Close;
                     Ok(Node::ColumnSeparator)
                 } else {
@@ -1716,7 +1750,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::NewLine => 'new_line: {
                 class = Class::Open;
-                if !self.state.env.meaningful_newlines {
+                if !self.state.env.meaningful_newlines || !matches!(parse_as, ParseAs::Sequence) {
                     // FIXME: Return something other than a row here, so that we can avoid creating
                     //       empty rows in places where they are not needed.
                     break 'new_line Ok(Node::EMPTY_ROW);
-- 
2.43.0


From 31e756afd1b78c0bb6814f1116f39f3ed8637f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 03/50] fix: keep a \label on an earlier row of multline for
 the number at the end

---
 crates/math-core/src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 4af9843..4f9d633 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1789,7 +1789,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         self.arena,
                     ) {
                         Ok(tag) => {
-                            let link_target = numbered_state.label.take();
+                            // In a `multline`, the label belongs to the number which is only
+                            // determined at the very end, so we have to hold on to it.
+                            let link_target = if numbered_state.num_rows.is_some() {
+                                None
+                            } else {
+                                numbered_state.label.take()
+                            };
                             let label_info = if let Some(tag) = tag {
                                 if let Some(label) = link_target {
                                     self.tokens.stores.global_state.label_map.insert(
-- 
2.43.0


From 7373916b6c62e05b4f54bbde487008f0e7d54fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 04/50] fix: skip consecutive comments in a loop instead of
 recursing once per comment

---
 crates/math-core/src/lexer.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/crates/math-core/src/lexer.rs b/crates/math-core/src/lexer.rs
index e8ceda5..515975b 100644
--- a/crates/math-core/src/lexer.rs
+++ b/crates/math-core/src/lexer.rs
@@ -144,15 +144,19 @@ impl<'source> Lexer<'source> {
             return Ok(LexerOutput::Token(TokSpan::new(Token::Whitespace, span)));
         }
 
-        let (loc, ch) = self.read_char();
-        let Some(ch) = ch else {
-            return Ok(LexerOutput::Token(TokSpan::new(
-                Token::Eoi,
-                Span::zero_width(loc),
-            )));
-        };
-        if ch == '%' {
-            // Skip comments.
+        let (loc, ch) = loop {
+            let (loc, ch) = self.read_char();
+            let Some(ch) = ch else {
+                return Ok(LexerOutput::Token(TokSpan::new(
+                    Token::Eoi,
+                    Span::zero_width(loc),
+                )));
+            };
+            if ch != '%' {
+                break (loc, ch);
+            }
+            // Skip comments. This is a loop rather than a recursive call, because there can be
+            // any number of comments in a row.
             while self.peek.1 != Some('\n') && self.peek.1.is_some() {
                 self.read_char();
             }
@@ -160,9 +164,7 @@ impl<'source> Lexer<'source> {
             // TeX skips whitespace on the line after a comment.
             // This also prevents two whitespace tokens following each other.
             self.skip_whitespace();
-            // FIXME: use `become` here when stabilized.
-            return self.next_token();
-        }
+        };
         let mut span = Span::new(loc, loc + ch.len_utf8());
         let tok = match ch {
             '\u{0}' => {
-- 
2.43.0


From 26c66170d0e619b8cf5195075823e1c3791f5085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 05/50] fix: report formulas which are nested too deeply
 instead of overflowing the stack

---
 crates/math-core/src/parser.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 4f9d633..2848f93 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -41,6 +41,12 @@ use crate::{
     token_queue::{CmdArgs, MacroArgument, OneOrNone, TokenQueue},
 };
 
+/// How deeply the constructs of a formula may be nested.
+///
+/// Both the parser and the emitter are recursive, so without a limit, a deeply nested formula
+/// overflows the stack, which aborts the whole process.
+const MAX_NESTING: u16 = 500;
+
 const FULL_STOP_TOKEN: Token = Token::Letter(SuperChar::from_char('.'), Mode::MathOrText);
 
 pub(crate) struct Parser<'state, 'arena> {
@@ -72,6 +78,8 @@ struct ParserState<'arena> {
     /// detecting that, we simply stop after a while, as LaTeX and KaTeX do. How long that
     /// takes is configurable; see [`crate::MaxExpansions`].
     expansions_left: u32,
+    /// How many tokens are being parsed right now, i.e., the current nesting depth.
+    nesting: u16,
 }
 
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
@@ -166,6 +174,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 style,
                 vertical_line_def: None,
                 expansions_left: parser_cfg.max_expansions.0,
+                nesting: 0,
             },
         })
     }
@@ -457,12 +466,22 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         prev_class: Class,
     ) -> ParseResult<(Class, &'arena Node<'arena>)> {
         let mut cur_tokloc = cur_tokloc;
-        loop {
+        if self.state.nesting >= MAX_NESTING {
+            let span = cur_tokloc?.span();
+            return Err(Box::new(LatexError(
+                span.into(),
+                LatexErrKind::HardLimitExceeded,
+            )));
+        }
+        self.state.nesting += 1;
+        let parsed = loop {
             match self.parse_one_token(cur_tokloc, parse_as, prev_class)? {
-                Parsed::Node(class, node) => return Ok((class, node)),
+                Parsed::Node(class, node) => break (class, node),
                 Parsed::Expansion => cur_tokloc = self.next_token(),
             }
-        }
+        };
+        self.state.nesting -= 1;
+        Ok(parsed)
     }
 
     /// Parse one token into a node, or into the first token of its expansion.
-- 
2.43.0


From 47661160abf0fda69093f1e38e2e4850628fb24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 06/50] fix: limit the number of tokens which expanding custom
 commands may produce

---
 crates/math-core/src/parser.rs      | 15 +++-----
 crates/math-core/src/token_queue.rs | 60 ++++++++++++++++++++++++-----
 2 files changed, 56 insertions(+), 19 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 2848f93..bcf6b85 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2332,21 +2332,16 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 self.count_expansion(span)?;
                 self.read_cmd_args(num_args)?;
                 self.tokens
-                    .queue_body_substituting(token_stream, &self.state.cmd_args, span);
+                    .queue_body_substituting(token_stream, &self.state.cmd_args, span)
+                    .map_err(|kind| LatexError(span.into(), kind))?;
                 return Ok(Parsed::Expansion);
             }
             Token::CustomCmdRef(source, num_args, _, start, end) => {
                 self.count_expansion(span)?;
                 self.read_cmd_args(num_args)?;
-                if !self.tokens.queue_stored_body_substituting(
-                    source,
-                    start,
-                    end,
-                    &self.state.cmd_args,
-                    span,
-                ) {
-                    return Err(Box::new(LatexError(span.into(), LatexErrKind::Internal)));
-                }
+                self.tokens
+                    .queue_stored_body_substituting(source, start, end, &self.state.cmd_args, span)
+                    .map_err(|kind| LatexError(span.into(), kind))?;
                 return Ok(Parsed::Expansion);
             }
             Token::CustomCmdArgInput(_) => Err(LatexError(
diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index 2447548..74e2943 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -42,8 +42,19 @@ pub(super) struct TokenQueue<'state, 'arena> {
     cmd_names: StringPool,
     lexer_is_eoi: bool,
     next_non_whitespace: usize,
+    /// How many more tokens the expansion of custom commands may produce before we give up.
+    ///
+    /// Limiting the number of expansions is not enough by itself: a command which repeats its
+    /// argument in the argument of another command doubles the number of tokens every time.
+    expanded_tokens_left: usize,
 }
 
+/// The number of tokens which the expansion of custom commands may always produce.
+const MIN_EXPANDED_TOKENS: usize = 1 << 20;
+/// The number of tokens which each of the permitted expansions may produce on average, if that
+/// is more than [`MIN_EXPANDED_TOKENS`] in total.
+const MEAN_TOKENS_PER_EXPANSION: usize = 1 << 10;
+
 /// A token in the queue, together with the name of the command it came from.
 ///
 /// Keeping the name is what lets the body of a `\newcommand` be recorded by name rather than by
@@ -192,6 +203,9 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             cmd_names: StringPool::default(),
             lexer_is_eoi: false,
             next_non_whitespace: 0,
+            expanded_tokens_left: (parser_cfg.max_expansions.0 as usize)
+                .saturating_mul(MEAN_TOKENS_PER_EXPANSION)
+                .max(MIN_EXPANDED_TOKENS),
         };
         // Ensure that we have at least one non-whitespace token in the buffer for peeking.
         let idx = tm.load_token_skip_whitespace()?;
@@ -541,11 +555,12 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         tokens: &[Token],
         args: &CmdArgs<'arena>,
         span: Span,
-    ) {
+    ) -> Result<(), LatexErrKind> {
         if tokens.is_empty() {
             self.queue_empty_body(span);
-            return;
+            return Ok(());
         }
+        count_expanded_tokens(&mut self.expanded_tokens_left, tokens.iter(), args)?;
         self.queue.reserve(tokens.len());
         // Queue the token stream in the front in reverse order.
         for tok in tokens.iter().rev() {
@@ -557,6 +572,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             }
         }
         self.update_next_non_whitespace();
+        Ok(())
     }
 
     /// Queue the body of a custom command which is kept in one of the stores, as
@@ -566,9 +582,8 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
     /// copied out of its store first: the store and the buffer are separate fields, so both
     /// can be borrowed at once.
     ///
-    /// Returns `false` if the range doesn't name a body in that store, which can only happen
-    /// if something has gone wrong.
-    #[must_use]
+    /// Returns an internal error if the range doesn't name a body in that store, which can only
+    /// happen if something has gone wrong.
     pub(super) fn queue_stored_body_substituting(
         &mut self,
         source: CmdSource,
@@ -576,14 +591,20 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         end: usize,
         args: &CmdArgs<'arena>,
         span: Span,
-    ) -> bool {
+    ) -> Result<(), LatexErrKind> {
         let Some(body) = self.stores.get_body(source, start, end) else {
-            return false;
+            return Err(LatexErrKind::Internal);
         };
         if body.is_empty() {
             self.queue_empty_body(span);
-            return true;
+            return Ok(());
         }
+        let tokens = body.iter().map(|recorded| match recorded {
+            RecordedToken::Token(tok) => tok,
+            // All that matters here is that this isn't an argument.
+            RecordedToken::CommandName(_) => &Token::Relax,
+        });
+        count_expanded_tokens(&mut self.expanded_tokens_left, tokens, args)?;
         self.queue.reserve(body.len());
         // Queue the token stream in the front in reverse order.
         for recorded in body.iter().rev() {
@@ -610,7 +631,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             }
         }
         self.update_next_non_whitespace();
-        true
+        Ok(())
     }
 
     /// Queue what the body of a custom command with no tokens in it expands to.
@@ -960,6 +981,27 @@ fn push_arg_front<'arena>(
     }
 }
 
+/// Account for the tokens which the body of a custom command turns into when the arguments are
+/// substituted into it, and give up if there are too many.
+///
+/// This is a free function for the same reason as [`push_arg_front`].
+fn count_expanded_tokens<'a>(
+    expanded_tokens_left: &mut usize,
+    body: impl Iterator<Item = &'a Token>,
+    args: &CmdArgs<'_>,
+) -> Result<(), LatexErrKind> {
+    for tok in body {
+        let num_tokens = match *tok {
+            Token::CustomCmdArg(arg_num) => args.get(arg_num).len(),
+            _ => 1,
+        };
+        *expanded_tokens_left = expanded_tokens_left
+            .checked_sub(num_tokens)
+            .ok_or(LatexErrKind::HardLimitExceeded)?;
+    }
+    Ok(())
+}
+
 fn is_not_whitespace(idx: usize, tok: &Token) -> Option<usize> {
     (!matches!(tok, Token::Whitespace)).then_some(idx)
 }
-- 
2.43.0


From f312027d5edaf27eb9ede833a676d770eadabba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 07/50] fix: report errors in the body of a custom command at
 the place where it is used

---
 crates/math-core/src/token_queue.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index 74e2943..e96df8f 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -544,9 +544,9 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
     /// possible for the body of a command to contain another command which takes arguments of
     /// its own.
     ///
-    /// The `span` of the command being expanded is used for the tokens which are inserted
-    /// for something that isn't there: the braces of an empty argument, and the `\relax` of
-    /// an empty body.
+    /// The `span` of the command being expanded is used for all tokens which are not part of
+    /// an argument: a body carries no spans of its own, so an error in it has to point at the
+    /// command we are expanding.
     ///
     /// Always queues at least one token, so that the caller can parse the expansion by
     /// simply taking the next token.
@@ -568,7 +568,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
                 Token::CustomCmdArg(arg_num) => {
                     push_arg_front(&mut self.queue, args.get(arg_num), span);
                 }
-                tok => self.queue.push_front(tok.into()),
+                tok => self.queue.push_front(TokSpan::new(tok, span).into()),
             }
         }
         self.update_next_non_whitespace();
@@ -612,15 +612,15 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
                 RecordedToken::Token(Token::CustomCmdArg(arg_num)) => {
                     push_arg_front(&mut self.queue, args.get(*arg_num), span);
                 }
-                RecordedToken::Token(tok) => self.queue.push_front((*tok).into()),
+                RecordedToken::Token(tok) => {
+                    self.queue.push_front(TokSpan::new(*tok, span).into());
+                }
                 // A command which the body only refers to by name gets its meaning here, so a
                 // command which didn't exist when the body was recorded may exist by now, and
                 // one which has been redefined since means something else now.
                 RecordedToken::CommandName(name) => {
                     let queued = match self.stores.resolve_command(name) {
-                        Some(tok) => tok.into(),
-                        // A body carries no spans of its own, so if the command is still not
-                        // defined, the error has to point at the command we are expanding.
+                        Some(tok) => TokSpan::new(tok, span).into(),
                         None => {
                             let name = self.cmd_names.intern(name);
                             TokSpan::new(Token::UnresolvedCommand(name), span).into()
-- 
2.43.0


From 566e264c9045ca88028f589ee82a434207d6a070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:06 +0000
Subject: [PATCH 08/50] fix: don't take a closing brace as the argument of a
 custom command

---
 crates/math-core/src/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index bcf6b85..a5331fc 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2737,6 +2737,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         LatexErrKind::ExpectedArgumentGotEOI,
                     )));
                 }
+                // The end of the surrounding group can't be an argument.
+                Token::GroupEnd => {
+                    return Err(Box::new(LatexError(
+                        queued.span().into(),
+                        LatexErrKind::ExpectedArgumentGotClose,
+                    )));
+                }
                 // An argument which isn't a group consists of a single token.
                 _ => self.state.cmd_args.push(queued),
             }
-- 
2.43.0


From 7f9344238960d8656fa808f53989fdea3312bf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:03 +0000
Subject: [PATCH 09/50] fix: report a missing argument at the end of \set and
 \Braket as such

---
 crates/math-core/src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index a5331fc..73a5064 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2238,12 +2238,17 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::Whitespace
             | Token::MathOrTextMode(_, _)
-            | Token::VerticalLineDef(_)
             | Token::CustomCmdArg(_) => {
                 // These tokens should have been skipped.
                 // We report an internal error here.
                 Err(LatexError(span.into(), LatexErrKind::Internal))
             }
+            // We only get here when a command in the argument of `\set` and the like looks for an
+            // argument of its own and finds the end of that argument.
+            Token::VerticalLineDef(_) => Err(LatexError(
+                span.into(),
+                LatexErrKind::ExpectedArgumentGotClose,
+            )),
             Token::TextMode(_) => Err(LatexError(span.into(), LatexErrKind::NotValidInMathMode)),
             Token::XArrow(rel) => {
                 // The leading and trailing 5mu spaces are ignored for character class
-- 
2.43.0


From 7a0617a927f9f4b2390fb0b46c54fcbee6611dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:50 +0000
Subject: [PATCH 10/50] fix: take only one digit as the argument of \mathbin
 and the like

---
 crates/math-core/src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 73a5064..2bb23e0 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -751,7 +751,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::MathClass(kind) => {
                 let tok_span = self.next_token()?;
-                let (_, node) = self.parse_token(Ok(tok_span), parse_as, prev_class)?;
+                // As an argument, a digit stands on its own, even if another digit follows.
+                let arg_as = if matches!(tok_span.token(), Token::Digit(_)) {
+                    ParseAs::ArgWithSpace
+                } else {
+                    parse_as
+                };
+                let (_, node) = self.parse_token(Ok(tok_span), arg_as, prev_class)?;
                 // Recompute the next class:
                 let next_class = self.peek_class_token(parse_as.in_sequence())?;
                 let (left, right) = match kind {
-- 
2.43.0


From ddf7395022f3dbbb1d93def3cb76e197813bf098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 11/50] fix: keep sized delimiters stretchy in \mathopen and
 the like

---
 crates/math-core/src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 2bb23e0..708fa0c 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -809,7 +809,12 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         right: _,
                     } => Ok(Node::Operator {
                         op,
-                        attrs: attrs | OpAttrs::STRETCHY_FALSE,
+                        // A sized delimiter, like `\big(` or `\middle|`, has to remain stretchy.
+                        attrs: if size.is_some() || attrs.contains(OpAttrs::STRETCHY_TRUE) {
+                            attrs
+                        } else {
+                            attrs | OpAttrs::STRETCHY_FALSE
+                        },
                         left,
                         right,
                         size,
-- 
2.43.0


From cee71b44fa09c38dcb2c5d2fa2adffcfa38e3f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:24 +0000
Subject: [PATCH 12/50] fix: don't take a table separator as the argument of
 \mathbin and the like

---
 crates/math-core/src/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 708fa0c..c330014 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -751,8 +751,12 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::MathClass(kind) => {
                 let tok_span = self.next_token()?;
-                // As an argument, a digit stands on its own, even if another digit follows.
-                let arg_as = if matches!(tok_span.token(), Token::Digit(_)) {
+                // As an argument, a digit stands on its own, even if another digit follows, and the
+                // separators of a table don't separate anything.
+                let arg_as = if matches!(
+                    tok_span.token(),
+                    Token::Digit(_) | Token::NewColumn | Token::NewLine
+                ) {
                     ParseAs::ArgWithSpace
                 } else {
                     parse_as
-- 
2.43.0


From c1f956e681d6d5daacd4da0d92d6a3f7084e8720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:42 +0000
Subject: [PATCH 13/50] fix: allow the expansion of a custom command or
 \mathchoice to begin with a switch-like command

---
 crates/math-core/src/parser.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index c330014..3c928e9 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -254,7 +254,17 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     }
                 }
                 // Parse the token.
-                self.parse_token(cur_tokloc, ParseAs::Sequence, prev_class)?
+                match self.parse_token_once(cur_tokloc, ParseAs::Sequence, prev_class)? {
+                    Parsed::Node(class, node) => (class, node),
+                    // An empty expansion stands for an empty group.
+                    Parsed::Expansion if matches!(self.tokens.peek().token(), Token::Relax) => {
+                        let tokloc = self.next_token();
+                        self.parse_token(tokloc, ParseAs::Sequence, prev_class)?
+                    }
+                    // Any other expansion may begin with anything that may stand in a sequence,
+                    // including tokens without output and the end of the sequence.
+                    Parsed::Expansion => continue,
+                }
             };
             prev_class = class;
 
@@ -466,6 +476,21 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         prev_class: Class,
     ) -> ParseResult<(Class, &'arena Node<'arena>)> {
         let mut cur_tokloc = cur_tokloc;
+        loop {
+            match self.parse_token_once(cur_tokloc, parse_as, prev_class)? {
+                Parsed::Node(class, node) => return Ok((class, node)),
+                Parsed::Expansion => cur_tokloc = self.next_token(),
+            }
+        }
+    }
+
+    /// Like [`Self::parse_token`], but leave it to the caller to go on with the expansion.
+    fn parse_token_once(
+        &mut self,
+        cur_tokloc: ParseResult<TokSpan>,
+        parse_as: ParseAs,
+        prev_class: Class,
+    ) -> ParseResult<Parsed<'arena>> {
         if self.state.nesting >= MAX_NESTING {
             let span = cur_tokloc?.span();
             return Err(Box::new(LatexError(
@@ -474,12 +499,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             )));
         }
         self.state.nesting += 1;
-        let parsed = loop {
-            match self.parse_one_token(cur_tokloc, parse_as, prev_class)? {
-                Parsed::Node(class, node) => break (class, node),
-                Parsed::Expansion => cur_tokloc = self.next_token(),
-            }
-        };
+        let parsed = self.parse_one_token(cur_tokloc, parse_as, prev_class)?;
         self.state.nesting -= 1;
         Ok(parsed)
     }
-- 
2.43.0


From 5eeba7161768694ed78bddab60f62333ec3b888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:05 +0000
Subject: [PATCH 14/50] fix: give \det limits like those of \max and \gcd

---
 crates/math-core/src/commands.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/commands.rs b/crates/math-core/src/commands.rs
index b8bd6fd..835c63e 100644
--- a/crates/math-core/src/commands.rs
+++ b/crates/math-core/src/commands.rs
@@ -22,8 +22,8 @@ use crate::{
 // These function names are essentially just passed-through, wrapped in a token.
 static FUNCTIONS: phf::Set<&'static str> = phf::phf_set!(
     "arccos", "arcctg", "arcsin", "arctan", "arctg", "arg", "ch", "cos", "cosec", "cosh", "cot",
-    "cotg", "coth", "csc", "ctg", "cth", "deg", "det", "dim", "erf", "erfc", "exp", "hom", "ker",
-    "lg", "ln", "log", "sec", "sh", "sin", "sinh", "tan", "tanh", "tg", "th"
+    "cotg", "coth", "csc", "ctg", "cth", "deg", "dim", "erf", "erfc", "exp", "hom", "ker", "lg",
+    "ln", "log", "sec", "sh", "sin", "sinh", "tan", "tanh", "tg", "th"
 );
 
 static COMMANDS: phf::Map<&'static str, Token> = phf::phf_map! {
@@ -311,6 +311,7 @@ static COMMANDS: phf::Map<&'static str, Token> = phf::phf_map! {
     "def" => Def(false),
     "degree" => Letter(SuperChar::from_char(symbol::DEGREE_SIGN), Mode::MathOrText),
     "delta" => Letter(SuperChar::from_char(symbol::GREEK_SMALL_LETTER_DELTA), Mode::Math),
+    "det" => PseudoOperatorLimits("det"),
     "dfrac" => Frac(Some(FracAttr::DisplayStyleTrue)),
     "diagdown" => ForceOrd(symbol::MATHEMATICAL_FALLING_DIAGONAL.as_op()),
     "diagup" => ForceOrd(symbol::MATHEMATICAL_RISING_DIAGONAL.as_op()),
-- 
2.43.0


From 2ebaefa64f4fdfdd0ada49f188892598000c85c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:47 +0000
Subject: [PATCH 15/50] fix: reset the script level for \dfrac, \tfrac, \dbinom
 and \tbinom in scripts

---
 crates/math-core/src/parser.rs          | 23 ++++++++++++++++++-----
 crates/mathml-renderer/src/attribute.rs |  6 ++++++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 3c928e9..c592e4a 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -959,8 +959,23 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             Token::Frac(attr) | Token::Binom(attr) => {
                 let inner_style = match attr {
                     None => self.state.style.shrink(),
-                    Some(FracAttr::CFracStyle | FracAttr::DisplayStyleTrue) => Style::Text,
-                    Some(FracAttr::DisplayStyleFalse) => Style::Script,
+                    Some(
+                        FracAttr::CFracStyle
+                        | FracAttr::DisplayStyleTrue
+                        | FracAttr::DisplayStyleInScript,
+                    ) => Style::Text,
+                    Some(FracAttr::DisplayStyleFalse | FracAttr::TextStyleInScript) => {
+                        Style::Script
+                    }
+                };
+                let attr = match (attr, self.state.style) {
+                    (Some(FracAttr::DisplayStyleTrue), Style::Script | Style::ScriptScript) => {
+                        Some(FracAttr::DisplayStyleInScript)
+                    }
+                    (Some(FracAttr::DisplayStyleFalse), Style::Script | Style::ScriptScript) => {
+                        Some(FracAttr::TextStyleInScript)
+                    }
+                    _ => attr,
                 };
                 let old_style = mem::replace(&mut self.state.style, inner_style);
                 let num = self.parse_next(ParseAs::Arg)?;
@@ -2271,9 +2286,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     ))
                 }
             }
-            Token::Whitespace
-            | Token::MathOrTextMode(_, _)
-            | Token::CustomCmdArg(_) => {
+            Token::Whitespace | Token::MathOrTextMode(_, _) | Token::CustomCmdArg(_) => {
                 // These tokens should have been skipped.
                 // We report an internal error here.
                 Err(LatexError(span.into(), LatexErrKind::Internal))
diff --git a/crates/mathml-renderer/src/attribute.rs b/crates/mathml-renderer/src/attribute.rs
index eb9d036..6708417 100644
--- a/crates/mathml-renderer/src/attribute.rs
+++ b/crates/mathml-renderer/src/attribute.rs
@@ -100,6 +100,12 @@ pub enum FracAttr {
     DisplayStyleFalse,
     #[strum(serialize = r#" displaystyle="true" scriptlevel="0" style="padding-top: 0.1667em""#)]
     CFracStyle,
+    /// Display style inside of scripts, where the script level has to be reset.
+    #[strum(serialize = r#" displaystyle="true" scriptlevel="0""#)]
+    DisplayStyleInScript,
+    /// Text style inside of scripts, where the script level has to be reset.
+    #[strum(serialize = r#" displaystyle="false" scriptlevel="0""#)]
+    TextStyleInScript,
 }
 
 #[derive(Clone, Copy, Debug, PartialEq, Eq, IntoStaticStr)]
-- 
2.43.0


From 40939c0d457f59c947c4d560975df603b49a81a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:48 +0000
Subject: [PATCH 16/50] fix: read labels of braces, \overset and extensible
 arrows in script style

---
 crates/math-core/src/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index c592e4a..05d7271 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1087,7 +1087,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 }
             }
             Token::Overset | Token::Underset => {
-                let old_style = mem::replace(&mut self.state.style, Style::Script);
+                let script_style = self.state.style.scriptify();
+                let old_style = mem::replace(&mut self.state.style, script_style);
                 let symbol = self.parse_next(ParseAs::Arg)?;
                 self.state.style = old_style;
                 let token = self.next_token();
@@ -1114,7 +1115,10 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 {
                     let target = self.commit(base);
                     self.next_token()?; // Discard the circumflex or underscore token.
+                    let script_style = self.state.style.scriptify();
+                    let old_style = mem::replace(&mut self.state.style, script_style);
                     let expl = self.parse_next(ParseAs::Arg)?;
+                    self.state.style = old_style;
                     if is_over {
                         Ok(Node::Over {
                             symbol: expl,
@@ -2306,7 +2310,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 // Parse the over-argument in the same state the original token-stream
                 // expansion used: `style` is set by the outer `\overset`, and
                 // `right_boundary_hack` is set by the inner `\overset`'s target group.
-                let old_style = mem::replace(&mut self.state.style, Style::Script);
+                let script_style = self.state.style.scriptify();
+                let old_style = mem::replace(&mut self.state.style, script_style);
                 let old_boundary_hack = mem::replace(&mut self.state.right_boundary_hack, true);
 
                 // Optional under-argument in square brackets (e.g. `\xrightarrow[a]{b}`),
-- 
2.43.0


From 27997d8125b94911862a5b598310e4043d82f964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:56 +0000
Subject: [PATCH 17/50] fix: report errors in the expansion of \dots at its
 place

---
 crates/math-core/src/parser.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 05d7271..ba1b7cc 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2145,12 +2145,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             Token::Dots => {
                 let next_token_is_mathbin_or_mathrel =
                     matches!(next_class, Class::BinaryOp | Class::Relation);
+                let tokens = if next_token_is_mathbin_or_mathrel {
+                    predefined::CDOTS
+                } else {
+                    predefined::DOTS
+                };
                 self.tokens
-                    .queue_in_front(if next_token_is_mathbin_or_mathrel {
-                        &predefined::CDOTS
-                    } else {
-                        &predefined::DOTS
-                    });
+                    .queue_in_front(&tokens.map(|token| TokSpan::new(token, span)));
                 return Ok(Parsed::Expansion);
             }
             Token::Prescript => {
-- 
2.43.0


From e35dd3d832a011b4f467cefa92d38409621598b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:23 +0000
Subject: [PATCH 18/50] fix: take a built-in command as a whole as an argument,
 even if it is made of several tokens

---
 crates/math-core/src/parser.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index ba1b7cc..71a819d 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -771,11 +771,16 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::MathClass(kind) => {
                 let tok_span = self.next_token()?;
-                // As an argument, a digit stands on its own, even if another digit follows, and the
-                // separators of a table don't separate anything.
+                // As an argument, a digit stands on its own, even if another digit follows, the
+                // separators of a table don't separate anything, and a built-in command is taken as
+                // a whole, no matter how many tokens it is made of.
                 let arg_as = if matches!(
                     tok_span.token(),
-                    Token::Digit(_) | Token::NewColumn | Token::NewLine
+                    Token::Digit(_)
+                        | Token::NewColumn
+                        | Token::NewLine
+                        | Token::Dots
+                        | Token::CustomCmd(..)
                 ) {
                     ParseAs::ArgWithSpace
                 } else {
@@ -2150,8 +2155,17 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 } else {
                     predefined::DOTS
                 };
+                let is_arg = !matches!(parse_as, ParseAs::Sequence);
+                if is_arg {
+                    self.tokens
+                        .queue_in_front(&[TokSpan::new(Token::GroupEnd, span)]);
+                }
                 self.tokens
                     .queue_in_front(&tokens.map(|token| TokSpan::new(token, span)));
+                if is_arg {
+                    self.tokens
+                        .queue_in_front(&[TokSpan::new(Token::GroupBegin, span)]);
+                }
                 return Ok(Parsed::Expansion);
             }
             Token::Prescript => {
@@ -2390,9 +2404,20 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             Token::CustomCmd(num_args, token_stream) => {
                 self.count_expansion(span)?;
                 self.read_cmd_args(num_args)?;
+                // As an argument (as in `x_\ldots`), a built-in command is one symbol, no matter
+                // how many tokens it is made of.
+                let is_arg = !matches!(parse_as, ParseAs::Sequence) && token_stream.len() > 1;
+                if is_arg {
+                    self.tokens
+                        .queue_in_front(&[TokSpan::new(Token::GroupEnd, span)]);
+                }
                 self.tokens
                     .queue_body_substituting(token_stream, &self.state.cmd_args, span)
                     .map_err(|kind| LatexError(span.into(), kind))?;
+                if is_arg {
+                    self.tokens
+                        .queue_in_front(&[TokSpan::new(Token::GroupBegin, span)]);
+                }
                 return Ok(Parsed::Expansion);
             }
             Token::CustomCmdRef(source, num_args, _, start, end) => {
-- 
2.43.0


From f45f0c119b48aa5a3ab14eb8afe93b6911bc4977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:59 +0000
Subject: [PATCH 19/50] fix: don't take a later token for the beginning of a
 custom command which begins with an argument

---
 crates/math-core/src/lib.rs         | 12 ++++++++++--
 crates/math-core/src/token_queue.rs |  5 ++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/lib.rs b/crates/math-core/src/lib.rs
index a1da1c0..08a065b 100644
--- a/crates/math-core/src/lib.rs
+++ b/crates/math-core/src/lib.rs
@@ -555,6 +555,7 @@ fn parse_custom_commands(
         body.clear();
         let mut num_args = 0;
         let mut first_class: Option<character_class::Class> = None;
+        let mut begins_with_arg = false;
         let result = 'body: {
             let mut lexer = Lexer::new(definition.as_str());
             loop {
@@ -566,10 +567,14 @@ fn parse_custom_commands(
                                 // resolved and to know its class. The actual resolution is done
                                 // when the macro is used.
                                 if let Some(resolved) = resolve_builtin_cmd(&parser_cfg, cmd_name) {
-                                    if first_class.is_none() {
+                                    if first_class.is_none() && !begins_with_arg {
                                         first_class = resolved.class();
                                     }
                                 } else {
+                                    if first_class.is_none() && !begins_with_arg {
+                                        // Not known yet, so it counts as an ordinary atom.
+                                        first_class = Some(character_class::Class::Default);
+                                    }
                                     unresolved.push((
                                         idx,
                                         KString::from_ref(cmd_name),
@@ -587,10 +592,13 @@ fn parse_custom_commands(
                                 if n >= num_args {
                                     num_args = n + 1;
                                 }
+                                // If the body begins with an argument, its class is that of
+                                // the argument.
+                                begins_with_arg |= first_class.is_none();
                                 body.push(RecordedToken::Token(Token::CustomCmdArg(n)));
                             }
                             tok => {
-                                if first_class.is_none() {
+                                if first_class.is_none() && !begins_with_arg {
                                     first_class = tok.class();
                                 }
                                 body.push(RecordedToken::Token(tok))
diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index e96df8f..0e8ed8c 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -817,6 +817,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         num_args: u8,
     ) -> Result<(Vec<RecordedToken>, Option<Class>), Box<LatexError>> {
         let mut first_class: Option<Class> = None;
+        let mut begins_with_arg = false;
         let body = body_tokspans
             .into_iter()
             .map(|queued| {
@@ -832,6 +833,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
                                 },
                             )));
                         }
+                        begins_with_arg |= first_class.is_none();
                         Ok(RecordedToken::Token(Token::CustomCmdArg(arg_num)))
                     }
                     // This has to come before the arm below, which would otherwise record
@@ -845,7 +847,8 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
                     tok => {
                         // The class has to be known now, because it is stored with the
                         // definition, so we take it from the meaning the command has here.
-                        if first_class.is_none() {
+                        // If the body begins with an argument, its class is that of the argument.
+                        if first_class.is_none() && !begins_with_arg {
                             first_class = tok.class();
                         }
                         // A command is recorded by name rather than by what it means right
-- 
2.43.0


From f932950949ecf7a03e0df990797e659a8e933373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:59 +0000
Subject: [PATCH 20/50] fix: attach scripts at the beginning of a custom
 command to what is before the command

---
 crates/math-core/src/parser.rs      | 48 +++++++++++++++++++++++++----
 crates/math-core/src/token_queue.rs | 30 ++++++++++++++++++
 2 files changed, 72 insertions(+), 6 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 71a819d..96f1619 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -22,7 +22,7 @@ use crate::{
         Class, DelimiterSpacing, MathVariant, ParenType, StretchableOp, Stretchy, fenced,
     },
     color_defs::get_color,
-    custom_cmds::RecordedToken,
+    custom_cmds::{CmdSource, RecordedToken},
     environments::{
         CLOSE_BRACE, CLOSE_BRACKET, CLOSE_PAREN, Env, EnvState, OPEN_BRACE, OPEN_BRACKET,
         OPEN_PAREN,
@@ -1115,6 +1115,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 } else {
                     Node::UnderAccent(x.as_op(), OpAttrs::empty(), target)
                 };
+                self.expand_leading_scripts()?;
                 if (is_over && matches!(self.tokens.peek().token(), Token::Circumflex))
                     || (!is_over && matches!(self.tokens.peek().token(), Token::Underscore))
                 {
@@ -2421,11 +2422,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 return Ok(Parsed::Expansion);
             }
             Token::CustomCmdRef(source, num_args, _, start, end) => {
-                self.count_expansion(span)?;
-                self.read_cmd_args(num_args)?;
-                self.tokens
-                    .queue_stored_body_substituting(source, start, end, &self.state.cmd_args, span)
-                    .map_err(|kind| LatexError(span.into(), kind))?;
+                self.expand_custom_cmd(source, num_args, start, end, span)?;
                 return Ok(Parsed::Expansion);
             }
             Token::CustomCmdArgInput(_) => Err(LatexError(
@@ -2799,6 +2796,39 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         Ok(())
     }
 
+    /// Put the body of a custom command, with its arguments filled in, in the place of the command
+    /// (which was already consumed).
+    fn expand_custom_cmd(
+        &mut self,
+        source: CmdSource,
+        num_args: u8,
+        start: usize,
+        end: usize,
+        span: Span,
+    ) -> ParseResult<()> {
+        self.count_expansion(span)?;
+        self.read_cmd_args(num_args)?;
+        self.tokens
+            .queue_stored_body_substituting(source, start, end, &self.state.cmd_args, span)
+            .map_err(|kind| LatexError(span.into(), kind))?;
+        Ok(())
+    }
+
+    /// Expand the next token for as long as it is a custom command whose body begins with a script.
+    ///
+    /// The scripts in such a body (`\newcommand{\inv}{^{-1}}`) belong to what is before the
+    /// command, so we have to see them before that is finished.
+    fn expand_leading_scripts(&mut self) -> ParseResult<()> {
+        while let Token::CustomCmdRef(source, num_args, _, start, end) =
+            *self.tokens.peek().token().unwrap_math_ref()
+            && self.tokens.body_begins_with_script(source, start, end)
+        {
+            let (_, span) = self.tokens.next()?.into_parts();
+            self.expand_custom_cmd(source, num_args, start, end, span)?;
+        }
+        Ok(())
+    }
+
     /// Read the arguments of a custom command, ready to be substituted into its body.
     ///
     /// The arguments are read as raw token streams; nothing in them is expanded here. They
@@ -2861,6 +2891,9 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         let mut ret: BoundsWithLimits = BoundsWithLimits::default();
 
         loop {
+            if first.is_none() {
+                self.expand_leading_scripts()?;
+            }
             // retrieve and consume next token
             let (next_token, next_span) = first
                 .as_ref()
@@ -2970,6 +3003,9 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 vec![(prime_kind.direction(), prime_kind.count())];
 
             let followed_by_circumflex = loop {
+                if !matches!(self.tokens.peek_any_token().token(), Token::Whitespace) {
+                    self.expand_leading_scripts()?;
+                }
                 // We use `peek_any_token` here because primes can't be separated by whitespace
                 // from each other or from a `^` that follows
                 let next_tok = self.tokens.peek_any_token().token().unwrap_math_ref();
diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index 0e8ed8c..be70984 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -634,6 +634,36 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         Ok(())
     }
 
+    /// Check whether the expansion of a custom command begins with a script (or with something
+    /// which may stand between a symbol and its scripts).
+    pub(super) fn body_begins_with_script(
+        &self,
+        mut source: CmdSource,
+        mut start: usize,
+        mut end: usize,
+    ) -> bool {
+        // A body may begin with the command it is the body of, so we don't follow it forever.
+        for _ in 0..64 {
+            let body = self.stores.get_body(source, start, end).unwrap_or_default();
+            let first = body.iter().find_map(|recorded| match recorded {
+                RecordedToken::Token(Token::Whitespace) => None,
+                RecordedToken::Token(tok) => Some(Some(*tok)),
+                RecordedToken::CommandName(name) => Some(self.stores.resolve_command(name)),
+            });
+            let Some(Some(first)) = first else {
+                return false;
+            };
+            match first.unwrap_math_ref() {
+                Token::Underscore | Token::Circumflex | Token::Prime(_) | Token::Limits(_) => {
+                    return true;
+                }
+                Token::CustomCmdRef(s, _, _, st, en) => (source, start, end) = (*s, *st, *en),
+                _ => return false,
+            }
+        }
+        false
+    }
+
     /// Queue what the body of a custom command with no tokens in it expands to.
     ///
     /// Such a body produces nothing at all, but we still have to queue something: without it,
-- 
2.43.0


From bd34131eebf2d598bcdbded7933e516badddcf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:41 +0000
Subject: [PATCH 21/50] fix: let commands defined with \def or \let in an
 argument of a custom command be seen by the rest of its body

---
 crates/math-core/src/token_queue.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index be70984..9e71e33 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -749,11 +749,11 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             if let Some(tok) = store.get(name, source) {
                 self.resolve_buffered_redefined_command(name, tok);
             }
-        } else {
-            // The token after the definition has already been loaded, so it may still say
-            // "unknown command" for the command we have just defined.
-            self.resolve_buffered_unknown_commands();
         }
+        // The token after the definition has already been loaded, so it may still say
+        // "unknown command" for the command we have just defined (which may also be new if
+        // `replace` is set, and which may come from the body of a custom command).
+        self.resolve_buffered_unknown_commands();
         true
     }
 
-- 
2.43.0


From f3a4ec87135df307f5547b906ad2d2d85a941347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:21 +0000
Subject: [PATCH 22/50] fix: accept a custom command which stands for a
 delimiter after \left, \right, \middle and \big

---
 crates/math-core/src/parser.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 96f1619..a79dbed 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1438,7 +1438,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 size: None,
             }),
             Token::Left => {
-                let tok_loc = self.next_token()?;
+                let tok_loc = self.next_expanded_token()?;
                 let open_paren = if matches!(tok_loc.token(), &FULL_STOP_TOKEN) {
                     None
                 } else {
@@ -1449,7 +1449,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     Class::Open,
                     false,
                 )?;
-                let tok_loc = self.next_token()?;
+                let tok_loc = self.next_expanded_token()?;
                 let close_paren = if matches!(tok_loc.token(), &FULL_STOP_TOKEN) {
                     None
                 } else {
@@ -1459,7 +1459,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::Middle => {
                 class = Class::Open;
-                let tok_loc = self.next_token()?;
+                let tok_loc = self.next_expanded_token()?;
                 let op = extract_delimiter(tok_loc, DelimiterModifier::Middle)?;
                 let spacing = if matches!(op.spacing, DelimiterSpacing::Zero) {
                     None
@@ -1475,7 +1475,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 })
             }
             Token::Big(size, paren_type) => {
-                let tok_loc = self.next_token()?;
+                let tok_loc = self.next_expanded_token()?;
                 let paren = extract_delimiter(tok_loc, DelimiterModifier::Big)?;
                 // `\big` commands without the "l" or "r" really produce `Class::Default`.
                 class = match paren_type {
@@ -2814,6 +2814,19 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         Ok(())
     }
 
+    /// The next token, after the expansion of the custom commands before it.
+    fn next_expanded_token(&mut self) -> ParseResult<TokSpan> {
+        loop {
+            let tok_loc = self.next_token()?;
+            let Token::CustomCmdRef(source, num_args, _, start, end) =
+                *tok_loc.token().unwrap_math_ref()
+            else {
+                return Ok(tok_loc);
+            };
+            self.expand_custom_cmd(source, num_args, start, end, tok_loc.span())?;
+        }
+    }
+
     /// Expand the next token for as long as it is a custom command whose body begins with a script.
     ///
     /// The scripts in such a body (`\newcommand{\inv}{^{-1}}`) belong to what is before the
-- 
2.43.0


From fac1a1ac3dd22b238fc9d6de40b92b66ea47a6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:08 +0000
Subject: [PATCH 23/50] fix: accept a custom command which begins with \hline
 at the start of a row

---
 crates/math-core/src/parser.rs      | 47 ++++++++++++++++++++---------
 crates/math-core/src/token_queue.rs | 11 +++----
 2 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index a79dbed..5590352 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1562,13 +1562,11 @@ impl<'state, 'arena> Parser<'state, 'arena> {
 
                 // A `\hline`/`\hdashline` directly at the start of the environment (whitespace is
                 // skipped by `peek`) becomes the top border of the whole table.
-                let mut border_top = None;
-                if env.allows_hlines()
-                    && let Token::HLine(line_type) = *self.tokens.peek().token()
-                {
-                    self.tokens.next()?;
-                    border_top = Some(line_type);
-                }
+                let border_top = if env.allows_hlines() {
+                    self.parse_horizontal_line()?
+                } else {
+                    None
+                };
                 // For arrays, the top border is stored in the array spec, which already carries
                 // the borders coming from the column specification.
                 let array_spec = spec.map(|mut spec| {
@@ -1838,13 +1836,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 // becomes the top border of the row that follows. Only legal inside an array or
                 // matrix; elsewhere it falls through to the `Token::HLine` error arm.
                 let border_top = if self.state.env.allow_hlines {
-                    match *self.tokens.peek().token() {
-                        Token::HLine(line_type) => {
-                            self.tokens.next()?;
-                            Some(line_type)
-                        }
-                        _ => None,
-                    }
+                    self.parse_horizontal_line()?
                 } else {
                     None
                 };
@@ -2832,9 +2824,34 @@ impl<'state, 'arena> Parser<'state, 'arena> {
     /// The scripts in such a body (`\newcommand{\inv}{^{-1}}`) belong to what is before the
     /// command, so we have to see them before that is finished.
     fn expand_leading_scripts(&mut self) -> ParseResult<()> {
+        self.expand_commands_beginning_with(|tok| {
+            matches!(
+                tok,
+                Token::Underscore | Token::Circumflex | Token::Prime(_) | Token::Limits(_)
+            )
+        })
+    }
+
+    /// Parse `\hline` or `\hdashline` (or a custom command for it), if it comes next.
+    fn parse_horizontal_line(&mut self) -> ParseResult<Option<LineType>> {
+        self.expand_commands_beginning_with(|tok| matches!(tok, Token::HLine(_)))?;
+        if let Token::HLine(line_type) = *self.tokens.peek().token() {
+            self.tokens.next()?;
+            Ok(Some(line_type))
+        } else {
+            Ok(None)
+        }
+    }
+
+    /// Expand the next token for as long as it is a custom command whose body begins with a token
+    /// of the given kind.
+    fn expand_commands_beginning_with(
+        &mut self,
+        kind: impl Fn(&Token) -> bool,
+    ) -> ParseResult<()> {
         while let Token::CustomCmdRef(source, num_args, _, start, end) =
             *self.tokens.peek().token().unwrap_math_ref()
-            && self.tokens.body_begins_with_script(source, start, end)
+            && self.tokens.body_begins_with(source, start, end, &kind)
         {
             let (_, span) = self.tokens.next()?.into_parts();
             self.expand_custom_cmd(source, num_args, start, end, span)?;
diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index 9e71e33..ce2b0ae 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -634,13 +634,13 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         Ok(())
     }
 
-    /// Check whether the expansion of a custom command begins with a script (or with something
-    /// which may stand between a symbol and its scripts).
-    pub(super) fn body_begins_with_script(
+    /// Check whether the expansion of a custom command begins with a token of the given kind.
+    pub(super) fn body_begins_with(
         &self,
         mut source: CmdSource,
         mut start: usize,
         mut end: usize,
+        kind: impl Fn(&Token) -> bool,
     ) -> bool {
         // A body may begin with the command it is the body of, so we don't follow it forever.
         for _ in 0..64 {
@@ -654,11 +654,8 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
                 return false;
             };
             match first.unwrap_math_ref() {
-                Token::Underscore | Token::Circumflex | Token::Prime(_) | Token::Limits(_) => {
-                    return true;
-                }
                 Token::CustomCmdRef(s, _, _, st, en) => (source, start, end) = (*s, *st, *en),
-                _ => return false,
+                tok => return kind(tok),
             }
         }
         false
-- 
2.43.0


From 65f01d186e37e76c0901edefdf1025d146f4ca11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:58 +0000
Subject: [PATCH 24/50] fix: put accents in text on the character they belong
 to

---
 crates/math-core/src/text_parser.rs | 35 ++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/crates/math-core/src/text_parser.rs b/crates/math-core/src/text_parser.rs
index 50a76f4..1362f25 100644
--- a/crates/math-core/src/text_parser.rs
+++ b/crates/math-core/src/text_parser.rs
@@ -36,7 +36,8 @@ impl<'arena> Parser<'_, 'arena> {
         let mut style_stack = vec![(0usize, initial_style, initial_voffset)];
         let mut str_builder: Option<StringBuilder> = None;
         let mut snippets: Vec<TextSnippet<'arena>> = Vec::new();
-        let mut accent_to_insert: Option<char> = None;
+        // The accents for the next character, the outermost one first.
+        let mut accents_to_insert: Vec<char> = Vec::new();
         let mut brace_nesting = 0usize;
         // Size declarations like `\large`. Each entry records the `style_stack` depth and the
         // brace nesting level at which the size was declared, because the size stays in effect
@@ -67,7 +68,7 @@ impl<'arena> Parser<'_, 'arena> {
                     match text_token {
                         TextToken::Accent(accent) => {
                             if str_builder.is_some() {
-                                accent_to_insert = Some(accent);
+                                accents_to_insert.push(accent);
                                 continue;
                             } else {
                                 Err(LatexErrKind::ExpectedArgumentGotEOI)
@@ -188,7 +189,12 @@ impl<'arena> Parser<'_, 'arena> {
                         continue;
                     }
                     Token::GroupEnd => {
-                        if let Some(builder) = str_builder.take() {
+                        if let Some(mut builder) = str_builder.take() {
+                            if !accents_to_insert.is_empty() {
+                                // There is nothing to put the accents on, as in `\~{}`.
+                                let space = SuperChar::from_char(symbol::NO_BREAK_SPACE);
+                                push_accented(&mut builder, space, &mut accents_to_insert);
+                            }
                             if let Some(new_nesting) = brace_nesting.checked_sub(1) {
                                 brace_nesting = new_nesting;
                                 let group_had_sizes = matches!(
@@ -394,14 +400,15 @@ impl<'arena> Parser<'_, 'arena> {
                 Err(LatexErrKind::NotValidInTextMode)
             };
             let c = c.map_err(|err| Box::new(LatexError(span.into(), err)))?;
+            let in_group = str_builder.is_some();
+            if !in_group {
+                str_builder = Some(self.buffer.get_builder());
+            }
             if let Some(builder) = &mut str_builder {
-                builder.push_superchar(c);
-                if let Some(accent) = accent_to_insert.take() {
-                    builder.push_char(accent);
-                }
-            } else {
-                let mut b = [0u8; SuperChar::MAX_LEN_UTF8];
-                let text = self.arena.alloc_str(c.encode_utf8(&mut b));
+                push_accented(builder, c, &mut accents_to_insert);
+            }
+            if !in_group && let Some(builder) = str_builder.take() {
+                let text = builder.finish(self.arena);
                 snippets.push(TextSnippet(
                     current_style,
                     current_size,
@@ -421,6 +428,14 @@ impl<'arena> Parser<'_, 'arena> {
     }
 }
 
+/// Add a character with its accents, the innermost of which comes first.
+fn push_accented(builder: &mut StringBuilder<'_>, c: SuperChar, accents: &mut Vec<char>) {
+    builder.push_superchar(c);
+    for accent in accents.drain(..).rev() {
+        builder.push_char(accent);
+    }
+}
+
 /// Remove all size declarations that have gone out of scope, i.e. those declared in a style
 /// scope or brace group that has been closed.
 fn discard_dead_sizes(
-- 
2.43.0


From db96be3b7d71d4031ab3ae34da01126129523598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:46 +0000
Subject: [PATCH 25/50] fix: keep the style of the surrounding text in \text,
 and bold italic in nested \textbf and \textit

---
 crates/math-core/src/text_parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/text_parser.rs b/crates/math-core/src/text_parser.rs
index 1362f25..9c7c62e 100644
--- a/crates/math-core/src/text_parser.rs
+++ b/crates/math-core/src/text_parser.rs
@@ -267,9 +267,13 @@ impl<'arena> Parser<'_, 'arena> {
                         let new_style = match (current_style, style) {
                             (Some(HtmlTextStyle::Emphasis), Some(HtmlTextStyle::Emphasis)) => None,
                             (Some(HtmlTextStyle::Bold), Some(HtmlTextStyle::Italic))
-                            | (Some(HtmlTextStyle::Italic), Some(HtmlTextStyle::Bold)) => {
-                                Some(HtmlTextStyle::BoldItalic)
-                            }
+                            | (Some(HtmlTextStyle::Italic), Some(HtmlTextStyle::Bold))
+                            | (
+                                Some(HtmlTextStyle::BoldItalic),
+                                Some(HtmlTextStyle::Bold | HtmlTextStyle::Italic),
+                            ) => Some(HtmlTextStyle::BoldItalic),
+                            // `\text` doesn't change the style.
+                            (_, None) => current_style,
                             _ => style,
                         };
                         style_stack.push((brace_nesting, new_style, current_voffset));
-- 
2.43.0


From aea0a18888804a6923f2a897febb24720df444a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 26/50] fix: take a * after a command for a symbol of its own
 unless there is a command with that name

---
 crates/math-core/src/lexer.rs       |  36 ++++++++-
 crates/math-core/src/lib.rs         |  11 ++-
 crates/math-core/src/token_queue.rs | 115 ++++++++++++++++++++++------
 3 files changed, 132 insertions(+), 30 deletions(-)

diff --git a/crates/math-core/src/lexer.rs b/crates/math-core/src/lexer.rs
index 515975b..48d59a0 100644
--- a/crates/math-core/src/lexer.rs
+++ b/crates/math-core/src/lexer.rs
@@ -22,8 +22,16 @@ pub(crate) struct Lexer<'source> {
     peek: (usize, Option<char>),
     input_string: &'source str,
     input_length: usize,
+    /// Where we were before the `*` of the last command, if its name ends with one.
+    before_star: Option<(CharIndices<'source>, (usize, Option<char>))>,
 }
 
+/// What `*` means.
+pub(crate) const ASTERISK: Token = Token::MathOrTextMode(
+    &const { Token::ForceBinaryOp(symbol::ASTERISK_OPERATOR.as_op()) },
+    '*',
+);
+
 impl<'source> Lexer<'source> {
     /// Receive the input source code and generate a LEXER instance.
     pub(crate) fn new(input: &'source str) -> Self {
@@ -32,6 +40,7 @@ impl<'source> Lexer<'source> {
             peek: (0, None),
             input_string: input,
             input_length: input.len(),
+            before_star: None,
         };
         lexer.read_char(); // Initialize `peek`.
         lexer
@@ -80,7 +89,11 @@ impl<'source> Lexer<'source> {
         }
 
         // Commands may end with a "*".
+        self.before_star = None;
         if self.peek.1 == Some('*') {
+            if start != self.peek.0 {
+                self.before_star = Some((self.input.clone(), self.peek));
+            }
             self.read_char();
         }
 
@@ -95,6 +108,24 @@ impl<'source> Lexer<'source> {
         (self.input_string.get_unwrap(start..end), end)
     }
 
+    /// Go back to before the `*` at the end of the command which was just read.
+    pub(crate) fn unread_star(&mut self) {
+        if let Some((input, peek)) = self.before_star.take() {
+            self.input = input;
+            self.peek = peek;
+        }
+    }
+
+    /// Read the `*` at the end of a command (and the whitespace after it), if it comes next.
+    pub(crate) fn read_star(&mut self, at: usize) -> bool {
+        let found = self.peek == (at, Some('*'));
+        if found {
+            self.read_char();
+            self.skip_whitespace();
+        }
+        found
+    }
+
     /// Read an environment name.
     ///
     /// Reads ASCII alphanumeric characters (and a few others) until the next `}`.
@@ -227,10 +258,7 @@ impl<'source> Lexer<'source> {
             '!' => Token::MathOrTextMode(&Token::Close(symbol::EXCLAMATION_MARK), '!'),
             '(' => Token::MathOrTextMode(&Token::Open(symbol::LEFT_PARENTHESIS), '('),
             ')' => Token::MathOrTextMode(&Token::Close(symbol::RIGHT_PARENTHESIS), ')'),
-            '*' => Token::MathOrTextMode(
-                &const { Token::ForceBinaryOp(symbol::ASTERISK_OPERATOR.as_op()) },
-                '*',
-            ),
+            '*' => ASTERISK,
             '+' => Token::MathOrTextMode(&Token::BinaryOp(symbol::PLUS_SIGN), '+'),
             ',' => Token::MathOrTextMode(&Token::Punctuation(symbol::COMMA), ','),
             '-' => Token::MathOrTextMode(&Token::BinaryOp(symbol::MINUS_SIGN), '-'),
diff --git a/crates/math-core/src/lib.rs b/crates/math-core/src/lib.rs
index 08a065b..69acc3b 100644
--- a/crates/math-core/src/lib.rs
+++ b/crates/math-core/src/lib.rs
@@ -566,7 +566,11 @@ fn parse_custom_commands(
                                 // We resolve the command here only to know whether it *can* be
                                 // resolved and to know its class. The actual resolution is done
                                 // when the macro is used.
-                                if let Some(resolved) = resolve_builtin_cmd(&parser_cfg, cmd_name) {
+                                // A `*` at the end may also be a token of its own.
+                                let base = cmd_name.strip_suffix('*').unwrap_or(cmd_name);
+                                if let Some(resolved) = resolve_builtin_cmd(&parser_cfg, cmd_name)
+                                    .or_else(|| resolve_builtin_cmd(&parser_cfg, base))
+                                {
                                     if first_class.is_none() && !begins_with_arg {
                                         first_class = resolved.class();
                                     }
@@ -622,7 +626,10 @@ fn parse_custom_commands(
     }
     // Now that all macros are known, every name which none of them defines is an error.
     for (idx, name, span) in unresolved {
-        if custom_cmds.get(&name, CmdSource::Config).is_none() {
+        let base = name.strip_suffix('*').unwrap_or(&name);
+        if custom_cmds.get(&name, CmdSource::Config).is_none()
+            && custom_cmds.get(base, CmdSource::Config).is_none()
+        {
             let err = Box::new(LatexError(span, LatexErrKind::UnknownCommand(name)));
             return Err((err, idx, definitions.swap_remove(idx)));
         }
diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index ce2b0ae..d0c319b 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -12,7 +12,7 @@ use crate::{
     custom_cmds::{CmdSource, CustomCmds, RecordedToken},
     error::{LatexErrKind, LatexError},
     global_state::GlobalState,
-    lexer::{Lexer, LexerOutput},
+    lexer::{ASTERISK, Lexer, LexerOutput},
     string_pool::{InternedStr, StringPool},
     token::{EndToken, Span, TokSpan, Token},
 };
@@ -41,6 +41,8 @@ pub(super) struct TokenQueue<'state, 'arena> {
     /// snippet is copied out of it, into the arena or into a [`RecordedToken::CommandName`].
     cmd_names: StringPool,
     lexer_is_eoi: bool,
+    /// Whether the next command we read from the lexer is the name of a new definition.
+    expects_definition_name: bool,
     next_non_whitespace: usize,
     /// How many more tokens the expansion of custom commands may produce before we give up.
     ///
@@ -173,6 +175,13 @@ impl Stores<'_, '_> {
         resolve_builtin_cmd(self.parser_cfg, name)
     }
 
+    /// Give a command name which ends with a `*`, but isn't defined, the meaning it has without
+    /// the `*`.
+    fn resolve_without_star<'a>(&self, name: &'a str) -> Option<(Token, &'a str)> {
+        let base = name.strip_suffix('*').filter(|base| !base.is_empty())?;
+        Some((self.resolve_command(base)?, base))
+    }
+
     /// Get the body of a command which is defined in one of the stores.
     fn get_body(&self, source: CmdSource, start: usize, end: usize) -> Option<&[RecordedToken]> {
         match source {
@@ -202,6 +211,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             queue: VecDeque::with_capacity(2),
             cmd_names: StringPool::default(),
             lexer_is_eoi: false,
+            expects_definition_name: false,
             next_non_whitespace: 0,
             expanded_tokens_left: (parser_cfg.max_expansions.0 as usize)
                 .saturating_mul(MEAN_TOKENS_PER_EXPANSION)
@@ -218,17 +228,33 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
     /// The lexer output is either a token or a command name. We look up the command name and if we
     /// can't find it, we return an unresolved command token with an interned name. Either way, the
     /// name is kept alongside the token; see [`QueuedTok`].
+    ///
+    /// A name may end with a `*`. If no such command is defined, but one without the `*` is, then
+    /// the `*` is a token of its own.
     fn resolve_lexed(&mut self, lexed: LexerOutput<'arena>) -> QueuedTok<'arena> {
-        match lexed {
+        let queued = match lexed {
             LexerOutput::Token(tokspan) => tokspan.into(),
             LexerOutput::CommandName(name, span) => {
-                let tok = self
-                    .stores
-                    .resolve_command(name)
-                    .unwrap_or_else(|| Token::UnresolvedCommand(self.cmd_names.intern(name)));
-                QueuedTok::new(TokSpan::new(tok, span), Some(name))
+                if let Some(tok) = self.stores.resolve_command(name) {
+                    QueuedTok::new(TokSpan::new(tok, span), Some(name))
+                } else if !self.expects_definition_name
+                    && let Some((tok, base)) = self.stores.resolve_without_star(name)
+                {
+                    self.lexer.unread_star();
+                    let span = Span::new(span.start(), span.end() - 1);
+                    QueuedTok::new(TokSpan::new(tok, span), Some(base))
+                } else {
+                    let tok = Token::UnresolvedCommand(self.cmd_names.intern(name));
+                    QueuedTok::new(TokSpan::new(tok, span), Some(name))
+                }
             }
-        }
+        };
+        self.expects_definition_name = match queued.token() {
+            Token::NewCommand(_) | Token::Def(_) | Token::Let => true,
+            Token::GroupBegin | Token::Whitespace => self.expects_definition_name,
+            _ => false,
+        };
+        queued
     }
 
     /// The name of an unresolved command, taken from the pool.
@@ -619,14 +645,15 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
                 // command which didn't exist when the body was recorded may exist by now, and
                 // one which has been redefined since means something else now.
                 RecordedToken::CommandName(name) => {
-                    let queued = match self.stores.resolve_command(name) {
-                        Some(tok) => TokSpan::new(tok, span).into(),
-                        None => {
-                            let name = self.cmd_names.intern(name);
-                            TokSpan::new(Token::UnresolvedCommand(name), span).into()
-                        }
+                    let tok = if let Some(tok) = self.stores.resolve_command(name) {
+                        tok
+                    } else if let Some((tok, _)) = self.stores.resolve_without_star(name) {
+                        self.queue.push_front(TokSpan::new(ASTERISK, span).into());
+                        tok
+                    } else {
+                        Token::UnresolvedCommand(self.cmd_names.intern(name))
                     };
-                    self.queue.push_front(queued);
+                    self.queue.push_front(TokSpan::new(tok, span).into());
                 }
             }
         }
@@ -648,7 +675,11 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             let first = body.iter().find_map(|recorded| match recorded {
                 RecordedToken::Token(Token::Whitespace) => None,
                 RecordedToken::Token(tok) => Some(Some(*tok)),
-                RecordedToken::CommandName(name) => Some(self.stores.resolve_command(name)),
+                RecordedToken::CommandName(name) => Some(
+                    self.stores
+                        .resolve_command(name)
+                        .or_else(|| Some(self.stores.resolve_without_star(name)?.0)),
+                ),
             });
             let Some(Some(first)) = first else {
                 return false;
@@ -685,13 +716,32 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
     /// the token of a command which is only defined once we get to it: the token right after
     /// a `\newcommand` has already been read by then.
     pub(super) fn resolve_buffered_unknown_commands(&mut self) {
-        for queued in &mut self.queue {
-            if let Token::UnresolvedCommand(name) = *queued.token()
-                && let Some(tok) = self.stores.resolve_command(self.cmd_names.get(name))
-            {
+        let mut idx = 0;
+        while let Some(queued) = self.queue.get_mut(idx) {
+            idx += 1;
+            let Token::UnresolvedCommand(name) = *queued.token() else {
+                continue;
+            };
+            let name = self.cmd_names.get(name);
+            if let Some(tok) = self.stores.resolve_command(name) {
                 *queued = queued.with_token(tok);
+            } else if let Some((tok, _)) = self.stores.resolve_without_star(name) {
+                let span = queued.span();
+                let (span, star) = match queued.name() {
+                    Some(_) => (
+                        Span::new(span.start(), span.end() - 1),
+                        Span::new(span.end() - 1, span.end()),
+                    ),
+                    // It comes from the body of a custom command.
+                    None => (span, span),
+                };
+                let name = queued.name().and_then(|name| name.strip_suffix('*'));
+                *queued = QueuedTok::new(TokSpan::new(tok, span), name);
+                self.queue.insert(idx, TokSpan::new(ASTERISK, star).into());
+                idx += 1;
             }
         }
+        self.update_next_non_whitespace();
     }
 
     /// Register a custom command, and make the tokens which are already buffered aware of it.
@@ -740,12 +790,15 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             CmdSource::Document => &self.stores.global_state.custom_cmds,
             _ => &self.stores.local_cmds,
         };
-        if replace {
-            // The token after the definition has already been loaded, so it may still refer
-            // to the definition we have just replaced.
-            if let Some(tok) = store.get(name, source) {
+        if let Some(tok) = store.get(name, source) {
+            if replace {
+                // The token after the definition has already been loaded, so it may still refer
+                // to the definition we have just replaced.
                 self.resolve_buffered_redefined_command(name, tok);
             }
+            if let Some(base) = name.strip_suffix('*') {
+                self.join_buffered_star(base, tok);
+            }
         }
         // The token after the definition has already been loaded, so it may still say
         // "unknown command" for the command we have just defined (which may also be new if
@@ -768,6 +821,20 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         }
     }
 
+    /// Update the buffered token for a command with a `*` which has just been defined.
+    ///
+    /// The token after the definition has already been loaded, so the `*` may have been taken for
+    /// a token of its own.
+    fn join_buffered_star(&mut self, base: &str, tok: Token) {
+        if let Some(queued) = self.queue.back_mut()
+            && queued.name() == Some(base)
+            && self.lexer.read_star(queued.span().end())
+        {
+            let span = Span::new(queued.span().start(), queued.span().end() + 1);
+            *queued = TokSpan::new(tok, span).into();
+        }
+    }
+
     /// Record the body of a command defined with `\newcommand`.
     ///
     /// The next token must be the opening `{`, which this consumes; the closing `}` is left
-- 
2.43.0


From 1693e09a47fbfafaab4ffbf218291ff43eb89745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 27/50] fix: an inch is 72.27 points

---
 crates/math-core/src/specifications.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/math-core/src/specifications.rs b/crates/math-core/src/specifications.rs
index 055d882..27aacfa 100644
--- a/crates/math-core/src/specifications.rs
+++ b/crates/math-core/src/specifications.rs
@@ -53,7 +53,7 @@ impl LatexUnit {
             LatexUnit::Pt => Length::new(0.1 * value, Rem),
             LatexUnit::Mm => Length::new(0.28453 * value, Rem),
             LatexUnit::Cm => Length::new(2.8453 * value, Rem),
-            LatexUnit::In => Length::new(7.2 * value, Rem),
+            LatexUnit::In => Length::new(7.227 * value, Rem),
             LatexUnit::Ex => Length::new(value, Ex),
             LatexUnit::Em => Length::new(value, Em),
             LatexUnit::Mu => Length::new(0.055555556 * value, Em),
-- 
2.43.0


From e59211dbb366f7a62b8e3587afc6a7ebcebf88e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 28/50] fix: accept spaces around the length of \raisebox, as
 in \hspace

---
 crates/math-core/src/parser.rs      | 40 ++++++++++++++---------------
 crates/math-core/src/text_parser.rs |  2 +-
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 5590352..3a68bef 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1745,26 +1745,29 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::RaiseBox => {
                 let (initial_voffset_str, span) = self.parse_string_literal()?;
-                let initial_voffset = match parse_length_specification(initial_voffset_str) {
-                    Some((voffset, unit, is_math_unit)) => {
-                        if is_math_unit {
+                let initial_voffset =
+                    match parse_length_specification(initial_voffset_str.trim_ascii()) {
+                        Some((voffset, unit, is_math_unit)) => {
+                            if is_math_unit {
+                                return Err(Box::new(LatexError(
+                                    span,
+                                    LatexErrKind::IllegalUnit {
+                                        unit: KString::from_ref(unit),
+                                        math_unit_expected: false,
+                                    },
+                                )));
+                            }
+                            LengthSet::from(voffset)
+                        }
+                        None => {
                             return Err(Box::new(LatexError(
                                 span,
-                                LatexErrKind::IllegalUnit {
-                                    unit: KString::from_ref(unit),
-                                    math_unit_expected: false,
-                                },
+                                LatexErrKind::ExpectedLength(KString::from_ref(
+                                    initial_voffset_str,
+                                )),
                             )));
                         }
-                        LengthSet::from(voffset)
-                    }
-                    None => {
-                        return Err(Box::new(LatexError(
-                            span,
-                            LatexErrKind::ExpectedLength(KString::from_ref(initial_voffset_str)),
-                        )));
-                    }
-                };
+                    };
                 let snippets = self.extract_text(None, Some(initial_voffset), true)?;
                 let nodes = snippets
                     .into_iter()
@@ -2845,10 +2848,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
 
     /// Expand the next token for as long as it is a custom command whose body begins with a token
     /// of the given kind.
-    fn expand_commands_beginning_with(
-        &mut self,
-        kind: impl Fn(&Token) -> bool,
-    ) -> ParseResult<()> {
+    fn expand_commands_beginning_with(&mut self, kind: impl Fn(&Token) -> bool) -> ParseResult<()> {
         while let Token::CustomCmdRef(source, num_args, _, start, end) =
             *self.tokens.peek().token().unwrap_math_ref()
             && self.tokens.body_begins_with(source, start, end, &kind)
diff --git a/crates/math-core/src/text_parser.rs b/crates/math-core/src/text_parser.rs
index 9c7c62e..71a11d2 100644
--- a/crates/math-core/src/text_parser.rs
+++ b/crates/math-core/src/text_parser.rs
@@ -294,7 +294,7 @@ impl<'arena> Parser<'_, 'arena> {
                         }
 
                         let (voffset_str, span) = self.parse_string_literal()?;
-                        let new_voffset = match parse_length_specification(voffset_str) {
+                        let new_voffset = match parse_length_specification(voffset_str.trim_ascii()) {
                             Some((voffset, unit, is_math_unit)) => {
                                 if is_math_unit {
                                     return Err(Box::new(LatexError(
-- 
2.43.0


From b3acea26868198b13050ae560a81ed8068e100fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 29/50] fix: expand custom commands in lengths, colours and
 other literal arguments

---
 crates/math-core/src/parser.rs | 76 ++++++++++++++++++++++++++++------
 1 file changed, 64 insertions(+), 12 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 3a68bef..001c831 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -38,7 +38,7 @@ use crate::{
         DefineMode, EndToken, InfixDelim, LimitsKind, MathClassKind, Mode, PhantomKind,
         PrimeDirection, PrimeKind, Span, TokSpan, Token, UnitKind, VerticalLineDef,
     },
-    token_queue::{CmdArgs, MacroArgument, OneOrNone, TokenQueue},
+    token_queue::{CmdArgs, OneOrNone, TokenQueue},
 };
 
 /// How deeply the constructs of a formula may be nested.
@@ -2822,6 +2822,26 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         }
     }
 
+    /// Expand the next token for as long as it is a custom command.
+    ///
+    /// With `keep_whitespace`, only if there is no whitespace before it.
+    fn expand_next(&mut self, keep_whitespace: bool) -> ParseResult<()> {
+        loop {
+            let tokspan = if keep_whitespace {
+                *self.tokens.peek_any_token()
+            } else {
+                *self.tokens.peek()
+            };
+            let Token::CustomCmdRef(source, num_args, _, start, end) =
+                *tokspan.token().unwrap_math_ref()
+            else {
+                return Ok(());
+            };
+            self.tokens.next()?;
+            self.expand_custom_cmd(source, num_args, start, end, tokspan.span())?;
+        }
+    }
+
     /// Expand the next token for as long as it is a custom command whose body begins with a script.
     ///
     /// The scripts in such a body (`\newcommand{\inv}{^{-1}}`) belong to what is before the
@@ -3259,6 +3279,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
 
         // An optional sign.
         let mut is_negative = false;
+        self.expand_next(false)?;
         if let &Token::MathOrTextMode(_, sign @ ('+' | '-')) = self.tokens.peek().token() {
             is_negative = sign == '-';
             let span = self.tokens.next()?.span();
@@ -3272,6 +3293,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         loop {
             // Whitespace may precede the number, but it also ends the number,
             // so we only skip whitespace before the first digit.
+            self.expand_next(in_number)?;
             let tok = if in_number {
                 self.tokens.peek_any_token().token()
             } else {
@@ -3302,6 +3324,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         for i in 0..unit.len() {
             // Whitespace may precede the unit, but the two letters of the unit
             // must not be separated by whitespace.
+            self.expand_next(i != 0)?;
             let tokloc = if i == 0 {
                 self.tokens.peek()
             } else {
@@ -3365,20 +3388,25 @@ impl<'state, 'arena> Parser<'state, 'arena> {
     pub(super) fn parse_string_literal(
         &mut self,
     ) -> Result<(&'arena str, Range<usize>), Box<LatexError>> {
-        let (tokens, span) = match self.tokens.read_argument(true)? {
-            MacroArgument::Group(tokens, span) => (tokens, span),
-            MacroArgument::Token(tokspan) => {
-                if let (Token::InternalStringLiteral(content), span) = tokspan.into_parts() {
-                    return Ok((content, span.into()));
-                } else {
-                    let span = tokspan.span();
-                    (vec![tokspan], span.into())
-                }
+        let first = *self.tokens.peek();
+        self.tokens.next()?;
+        let start = first.span().start();
+        let mut tokens: Vec<TokSpan> = Vec::new();
+        let span = match *first.token() {
+            Token::InternalStringLiteral(content) => return Ok((content, first.span().into())),
+            Token::GroupBegin => start..self.read_literal(&mut tokens)?,
+            Token::CustomCmdRef(..) => {
+                // A custom command stands for everything in its body.
+                let end = TokSpan::new(Token::GroupEnd, first.span());
+                self.tokens.queue_in_front(&[first, end]);
+                start..self.read_literal(&mut tokens)?
+            }
+            _ => {
+                tokens.push(first);
+                first.span().into()
             }
         };
         let mut builder = self.buffer.get_builder();
-        // The tokens come out of the queue, so any custom command among them has already
-        // been expanded, arguments and all.
         for tokspan in tokens {
             let (tok, span) = tokspan.into_parts();
             let Some(ch) = recover_limited_ascii(tok) else {
@@ -3392,6 +3420,30 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         Ok((builder.finish(self.arena), span))
     }
 
+    /// Read the tokens up to the closing brace, with the custom commands among them expanded.
+    ///
+    /// Returns where the closing brace ends.
+    fn read_literal(&mut self, tokens: &mut Vec<TokSpan>) -> Result<usize, Box<LatexError>> {
+        let mut depth = 0usize;
+        loop {
+            self.expand_next(true)?;
+            let tokspan = self.tokens.next_any_token()?;
+            match tokspan.token() {
+                Token::GroupBegin => depth += 1,
+                Token::GroupEnd if depth == 0 => return Ok(tokspan.span().end()),
+                Token::GroupEnd => depth -= 1,
+                Token::Eoi => {
+                    return Err(Box::new(LatexError(
+                        tokspan.span().into(),
+                        LatexErrKind::UnclosedGroup(EndToken::GroupClose),
+                    )));
+                }
+                _ => {}
+            }
+            tokens.push(tokspan);
+        }
+    }
+
     fn peek_class_token(&mut self, in_sequence: bool) -> ParseResult<Class> {
         if !in_sequence {
             return Ok(Class::Default);
-- 
2.43.0


From 5410e53e6c550e0af736669c4d82db688c729fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 30/50] fix: a group counts as an ordinary atom, so \sin{x} has
 a thin space

---
 crates/math-core/src/token.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/token.rs b/crates/math-core/src/token.rs
index 0674478..90218d6 100644
--- a/crates/math-core/src/token.rs
+++ b/crates/math-core/src/token.rs
@@ -551,9 +551,9 @@ impl Token {
         match self.unwrap_math_ref() {
             Relation(_) | ForceRelation(_) | XArrow(_) => Some(Class::Relation),
             Punctuation(_) | ForcePunctuation(_) => Some(Class::Punctuation),
-            Open(_) | Left | SquareBracketOpen | ForceOpen(..) | Begin(_) | GroupBegin => {
-                Some(Class::Open)
-            }
+            Open(_) | Left | SquareBracketOpen | ForceOpen(..) | Begin(_) => Some(Class::Open),
+            // A group is an ordinary atom.
+            GroupBegin => Some(Class::Default),
             Close(_) | SquareBracketClose | ForceClose(..) | Right | Middle => Some(Class::Close),
             BinaryOp(_) | ForceBinaryOp(_) => Some(Class::BinaryOp),
             Op(_)
-- 
2.43.0


From 0e7d1f978b2d5524ac639b46638ea4ef5413447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 31/50] fix: a binary operator in a script stays a binary
 operator for its neighbours

---
 crates/math-core/src/parser.rs | 46 +++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 001c831..d6d21ab 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -735,13 +735,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     next_class,
                     false,
                 );
-                class = if matches!(spacing, Some(MathSpacing::Zero)) {
-                    // If the spacing is zero, this operator behaves like an ordinary symbol in
-                    // terms of spacing.
-                    Class::Default
-                } else {
-                    Class::BinaryOp
-                };
+                class = bin_op_class(parse_as.in_sequence(), prev_class, next_class);
                 Ok(Node::Operator {
                     op: binary_op.as_op(),
                     attrs: OpAttrs::empty(),
@@ -754,13 +748,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 let spacing =
                     self.state
                         .bin_op_spacing(parse_as.in_sequence(), prev_class, next_class, true);
-                class = if matches!(spacing, Some(MathSpacing::Zero)) {
-                    // If the spacing is zero, this operator behaves like an ordinary symbol in
-                    // terms of spacing.
-                    Class::Default
-                } else {
-                    Class::BinaryOp
-                };
+                class = bin_op_class(parse_as.in_sequence(), prev_class, next_class);
                 Ok(Node::Operator {
                     op,
                     attrs: OpAttrs::empty(),
@@ -799,7 +787,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         self.mathop_spacing(parse_as, prev_class, true)?
                     }
                     MathClassKind::Bin => {
-                        class = Class::BinaryOp;
+                        class = bin_op_class(parse_as.in_sequence(), prev_class, next_class);
                         let spacing = self.state.bin_op_spacing(
                             parse_as.in_sequence(),
                             prev_class,
@@ -3516,11 +3504,8 @@ impl ParserState<'_> {
             // Don't add spacing if we are in an argument.
             None
         } else if matches!(
-            prev_class,
-            Class::Relation | Class::Punctuation | Class::BinaryOp | Class::Operator | Class::Open
-        ) || matches!(
-            next_class,
-            Class::Relation | Class::Punctuation | Class::Close | Class::End
+            bin_op_class(in_sequence, prev_class, next_class),
+            Class::Default
         ) || matches!(self.style, Style::Script | Style::ScriptScript)
         {
             Some(MathSpacing::Zero)
@@ -3584,6 +3569,27 @@ impl ParserState<'_> {
     }
 }
 
+/// The class of a binary operator in its context.
+///
+/// Without anything to operate on, a binary operator behaves like an ordinary symbol in terms of
+/// spacing. This doesn't depend on the style: in a script, there is no space around a binary
+/// operator, but it is a binary operator nevertheless.
+fn bin_op_class(in_sequence: bool, prev_class: Class, next_class: Class) -> Class {
+    if in_sequence
+        && (matches!(
+            prev_class,
+            Class::Relation | Class::Punctuation | Class::BinaryOp | Class::Operator | Class::Open
+        ) || matches!(
+            next_class,
+            Class::Relation | Class::Punctuation | Class::Close | Class::End
+        ))
+    {
+        Class::Default
+    } else {
+        Class::BinaryOp
+    }
+}
+
 // Turn a vector of nodes into a single node.
 //
 // This is done either by returning the single node if there is only one,
-- 
2.43.0


From b689507f220a57918a8eb2091392c9b7a3d22037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 32/50] fix: the line columns after the last cell of a row were
 not drawn

---
 crates/mathml-renderer/src/ast.rs   |  2 +
 crates/mathml-renderer/src/table.rs | 73 +++++++++++++++++++++--------
 2 files changed, 56 insertions(+), 19 deletions(-)

diff --git a/crates/mathml-renderer/src/ast.rs b/crates/mathml-renderer/src/ast.rs
index 4964a50..834364a 100644
--- a/crates/mathml-renderer/src/ast.rs
+++ b/crates/mathml-renderer/src/ast.rs
@@ -856,6 +856,7 @@ impl<'state> Emitter<'state> {
                     border_top,
                 } => {
                     writeln_indent!(self, child_indent2, "</mtd>");
+                    col_gen.write_trailing_lines(&mut self.s, child_indent2, self.indentation)?;
                     if let Some(numbering_cols) = numbering_cols {
                         write_equation_num(
                             &mut self.s,
@@ -889,6 +890,7 @@ impl<'state> Emitter<'state> {
             }
         }
         writeln_indent!(self, child_indent2, "</mtd>");
+        col_gen.write_trailing_lines(&mut self.s, child_indent2, self.indentation)?;
         if let Some(numbering_cols) = numbering_cols {
             write_equation_num(
                 &mut self.s,
diff --git a/crates/mathml-renderer/src/table.rs b/crates/mathml-renderer/src/table.rs
index 5d4bb23..9c344b4 100644
--- a/crates/mathml-renderer/src/table.rs
+++ b/crates/mathml-renderer/src/table.rs
@@ -150,6 +150,35 @@ impl<'arena> ColumnGenerator<'arena> {
         self.row_border_top = border_top;
     }
 
+    fn border_top(&self) -> &'static str {
+        match self.row_border_top {
+            None => "",
+            Some(LineType::Solid) => BORDER_TOP_SOLID,
+            Some(LineType::Dashed) => BORDER_TOP_DASHED,
+        }
+    }
+
+    /// Write the columns which are just a line and come directly after the last cell of a row,
+    /// like the second line in `{c||}`.
+    pub fn write_trailing_lines(
+        &mut self,
+        s: &mut String,
+        indent_num: usize,
+        indentation: Indentation,
+    ) -> Result<(), core::fmt::Error> {
+        let border_top = self.border_top();
+        if let AlignmentType::Custom(array_spec) = self.typ {
+            while let Some(ColumnSpecEntry::OnlyLine(line_type)) =
+                array_spec.column_spec.get(self.column_idx)
+            {
+                self.column_idx += 1;
+                new_line_and_indent(s, indent_num, indentation);
+                write_line_mtd(s, *line_type, border_top, array_spec.is_sub)?;
+            }
+        }
+        Ok(())
+    }
+
     pub fn write_next_mtd(
         &mut self,
         s: &mut String,
@@ -162,11 +191,7 @@ impl<'arena> ColumnGenerator<'arena> {
         // Top border (from `\hline`/`\hdashline`) applied to every cell of the current row.
         // When non-empty, the plain `<mtd>` fast paths are replaced by a styled cell, and the
         // border is injected at the start of every other cell's style.
-        let border_top = match self.row_border_top {
-            None => "",
-            Some(LineType::Solid) => BORDER_TOP_SOLID,
-            Some(LineType::Dashed) => BORDER_TOP_DASHED,
-        };
+        let border_top = self.border_top();
         match self.typ {
             AlignmentType::Predefined(align) => {
                 let is_even = column_idx.is_multiple_of(2);
@@ -210,20 +235,7 @@ impl<'arena> ColumnGenerator<'arena> {
                         .get(self.column_idx)
                         .unwrap_or(&DEFAULT_COLUMN_SPEC);
                     self.column_idx += 1;
-                    write!(s, "{MTD_OPEN_STYLE}{border_top}")?;
-                    match line_type {
-                        LineType::Solid => {
-                            write!(s, "{BORDER_RIGHT_SOLID}")?;
-                        }
-                        LineType::Dashed => {
-                            write!(s, "{BORDER_RIGHT_DASHED}")?;
-                        }
-                    }
-                    if array_spec.is_sub {
-                        write!(s, "{PADDING_TOP_BOTTOM_ZERO}")?;
-                    }
-                    write!(s, "padding-left: 0.1em;padding-right: 0.1em;")?;
-                    write!(s, "\"></mtd>")?;
+                    write_line_mtd(s, *line_type, border_top, array_spec.is_sub)?;
                     new_line_and_indent(s, indent_num, indentation);
                 }
                 match column_spec {
@@ -288,6 +300,29 @@ impl<'arena> ColumnGenerator<'arena> {
     }
 }
 
+/// Write a column which is just a line (with no content).
+fn write_line_mtd(
+    s: &mut String,
+    line_type: LineType,
+    border_top: &str,
+    is_sub: bool,
+) -> core::fmt::Result {
+    write!(s, "{MTD_OPEN_STYLE}{border_top}")?;
+    match line_type {
+        LineType::Solid => {
+            write!(s, "{BORDER_RIGHT_SOLID}")?;
+        }
+        LineType::Dashed => {
+            write!(s, "{BORDER_RIGHT_DASHED}")?;
+        }
+    }
+    if is_sub {
+        write!(s, "{PADDING_TOP_BOTTOM_ZERO}")?;
+    }
+    write!(s, "padding-left: 0.1em;padding-right: 0.1em;")?;
+    write!(s, "\"></mtd>")
+}
+
 /// Write a centered cell (`<mtd>`) with no other styling, adding a top border if one is set
 /// for the current row.
 fn write_simple_mtd(s: &mut String, border_top: &str) -> core::fmt::Result {
-- 
2.43.0


From 506047394fd64e9676f8c2932f9184a652d93131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:14 +0000
Subject: [PATCH 33/50] fix: report the error of the conversion instead of that
 of a second conversion

---
 crates/math-core-cli/src/replace.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/math-core-cli/src/replace.rs b/crates/math-core-cli/src/replace.rs
index c9514b5..a3da938 100644
--- a/crates/math-core-cli/src/replace.rs
+++ b/crates/math-core-cli/src/replace.rs
@@ -185,18 +185,17 @@ impl<'args> Replacer<'args> {
             // Replace HTML entities
             let replaced = replace_html_entities(&mut self.entity_buffer, content);
             // Convert the content and check for error.
-            let is_error = { f(state, &mut result, replaced, open_typ).is_err() };
-            if is_error {
+            let error = f(state, &mut result, replaced, open_typ).err();
+            if let Some(latex_error) = error {
                 // If we stop on error, return the error together with the snippet.
-                // Unfortunately, due to limitations in the borrow checker, we have to run the
-                // conversion again to get the error.
+                // Unfortunately, due to limitations in the borrow checker, we have to replace the
+                // entities again to get the snippet.
                 // The reason seems to be that the borrow checker cannot tell that when we
                 // return `replaced` here, we are not maintaining the borrow for the next
                 // iteration of the loop.
                 // This is quite unfortunate, but we only have to do this in the error case,
                 // which is hopefully not too common.
                 let replaced = replace_html_entities(&mut self.entity_buffer, content);
-                let latex_error = f(state, &mut result, replaced, open_typ).unwrap_err();
                 return Err(ConversionError(
                     start,
                     ConvErrKind::LatexError(*latex_error, replaced),
-- 
2.43.0


From 243b3a00666d3cd915302a05cc8a53297ea3ab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 34/50] fix: a delimiter which overlaps with an escaped one was
 ignored

---
 crates/math-core-cli/src/replace.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/crates/math-core-cli/src/replace.rs b/crates/math-core-cli/src/replace.rs
index a3da938..f82f7c6 100644
--- a/crates/math-core-cli/src/replace.rs
+++ b/crates/math-core-cli/src/replace.rs
@@ -240,8 +240,8 @@ impl<'args> Replacer<'args> {
             let end = window.min(input.len());
             let haystack = &input[..end];
 
-            let inline_result = self.find_delimiter_position(haystack, inline_finder, inline_len);
-            let block_result = self.find_delimiter_position(haystack, block_finder, block_len);
+            let inline_result = self.find_delimiter_position(haystack, inline_finder);
+            let block_result = self.find_delimiter_position(haystack, block_finder);
 
             // Take the closest delimiter, with block display taking priority on ties.
             let found = match (inline_result, block_result) {
@@ -276,12 +276,7 @@ impl<'args> Replacer<'args> {
     }
 
     /// Helper function to find the next unescaped delimiter position
-    fn find_delimiter_position(
-        &self,
-        input: &[u8],
-        finder: &Finder,
-        delimiter_len: usize,
-    ) -> Option<usize> {
+    fn find_delimiter_position(&self, input: &[u8], finder: &Finder) -> Option<usize> {
         if !self.ignore_escaped_delim {
             return finder.find(input);
         }
@@ -293,8 +288,9 @@ impl<'args> Replacer<'args> {
 
             // Check if this delimiter is escaped
             if absolute_pos > 0 && input[absolute_pos - 1] == b'\\' {
-                // Skip past this escaped delimiter
-                offset = absolute_pos + delimiter_len;
+                // Skip past the start of this escaped delimiter. The next delimiter may overlap
+                // with it: `\$$$x$$` is an escaped `$` followed by `$$x$$`.
+                offset = absolute_pos + 1;
                 continue;
             }
 
-- 
2.43.0


From 9d16c2b5a32d454422e578debf21007bda9583fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 35/50] fix: an empty delimiter made the tool run forever

---
 crates/math-core-cli/src/main.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/math-core-cli/src/main.rs b/crates/math-core-cli/src/main.rs
index f395e36..9efe75b 100644
--- a/crates/math-core-cli/src/main.rs
+++ b/crates/math-core-cli/src/main.rs
@@ -4,7 +4,7 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use clap::Parser;
+use clap::{Parser, builder::NonEmptyStringValueParser};
 
 use math_core::{LatexError, LatexToMathML, MathDisplay};
 
@@ -29,7 +29,8 @@ struct Args {
         long,
         default_value = "$",
         conflicts_with = "formula",
-        value_name = "STR"
+        value_name = "STR",
+        value_parser = NonEmptyStringValueParser::new()
     )]
     inline_del: String,
 
@@ -38,7 +39,8 @@ struct Args {
         long,
         default_value = "$$",
         conflicts_with = "formula",
-        value_name = "STR"
+        value_name = "STR",
+        value_parser = NonEmptyStringValueParser::new()
     )]
     block_del: String,
 
@@ -47,7 +49,8 @@ struct Args {
         long,
         conflicts_with = "inline_del",
         requires = "inline_close",
-        value_name = "STR"
+        value_name = "STR",
+        value_parser = NonEmptyStringValueParser::new()
     )]
     inline_open: Option<String>,
 
@@ -56,7 +59,8 @@ struct Args {
         long,
         conflicts_with = "inline_del",
         requires = "inline_open",
-        value_name = "STR"
+        value_name = "STR",
+        value_parser = NonEmptyStringValueParser::new()
     )]
     inline_close: Option<String>,
 
@@ -65,7 +69,8 @@ struct Args {
         long,
         conflicts_with = "block_del",
         requires = "block_close",
-        value_name = "STR"
+        value_name = "STR",
+        value_parser = NonEmptyStringValueParser::new()
     )]
     block_open: Option<String>,
 
@@ -74,7 +79,8 @@ struct Args {
         long,
         conflicts_with = "block_del",
         requires = "block_open",
-        value_name = "STR"
+        value_name = "STR",
+        value_parser = NonEmptyStringValueParser::new()
     )]
     block_close: Option<String>,
 
-- 
2.43.0


From fcc1fd61eff694c0c246e2833f19a082ca75ce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 36/50] fix: style and colour switches in an optional argument
 did not end at its bracket

`\sqrt[\displaystyle 3]{x}` and `\xrightarrow[\color{red}a]{b}` were rejected.
---
 crates/math-core/src/parser.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index d6d21ab..945ed8b 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -67,6 +67,8 @@ struct ParserState<'arena> {
     /// This is currently a hack, which should be replaced by a more robust solution later.
     right_boundary_hack: bool,
     env: EnvState<'arena>,
+    /// `true` if the innermost group is an optional argument, which ends with a `]`.
+    in_brackets: bool,
     /// The current style (display/text/script/scriptscript) for the surrounding group.
     style: Style,
     /// The current meaning of the character `|`, which `\set`, `\Set` and `\Braket` change.
@@ -92,16 +94,17 @@ enum SequenceEnd {
 
 impl SequenceEnd {
     #[inline]
-    fn matches(self, other: &Token, env: &EnvState<'_>) -> bool {
+    fn matches(self, other: &Token, state: &ParserState<'_>) -> bool {
         match self {
             SequenceEnd::EndToken(token) => token.matches(other),
             SequenceEnd::AnyEndToken => {
                 matches!(
                     other,
                     Token::Eoi | Token::GroupEnd | Token::End(_) | Token::Right
-                ) || env.ends_cell(other)
+                ) || state.env.ends_cell(other)
+                    || state.in_brackets && EndToken::SquareBracketClose.matches(other)
             }
-            SequenceEnd::TableCell => EndToken::End.matches(other) || env.ends_cell(other),
+            SequenceEnd::TableCell => EndToken::End.matches(other) || state.env.ends_cell(other),
         }
     }
 }
@@ -171,6 +174,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 transform: None,
                 right_boundary_hack: false,
                 env: EnvState::default(),
+                in_brackets: false,
                 style,
                 vertical_line_def: None,
                 expansions_left: parser_cfg.max_expansions.0,
@@ -234,8 +238,16 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             self.state.env.meaningful_newlines = false;
         }
 
+        let old_in_brackets = self.state.in_brackets;
+        if !matches!(sequence_end, SequenceEnd::AnyEndToken) {
+            self.state.in_brackets = matches!(
+                sequence_end,
+                SequenceEnd::EndToken(EndToken::SquareBracketClose)
+            );
+        }
+
         // Because we don't want to consume the end token, we just peek here.
-        while !sequence_end.matches(self.tokens.peek().token(), &self.state.env) {
+        while !sequence_end.matches(self.tokens.peek().token(), &self.state) {
             // Check whether we need to collect letters.
             let (class, target) = if let Some(collected) = self.merge_and_transform_letters()? {
                 collected
@@ -331,6 +343,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         }
         self.state.transform = old_tf;
         self.state.style = old_style;
+        self.state.in_brackets = old_in_brackets;
         (
             self.state.env.allow_columns,
             self.state.env.meaningful_newlines,
-- 
2.43.0


From f600389f8a4ae04702e5e9c476e2b951fed4e0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 37/50] fix: an infix fraction took only what follows a switch
 as its numerator

`{x\displaystyle a\over b}` gave x(a/b), since the switch was the start of a group which
the fraction stood in. The switch also holds for the denominator where TeX has it so.
---
 crates/math-core/src/parser.rs | 60 ++++++++++++++++++++++++++++++----
 1 file changed, 53 insertions(+), 7 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 945ed8b..79bf4be 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -69,6 +69,8 @@ struct ParserState<'arena> {
     env: EnvState<'arena>,
     /// `true` if the innermost group is an optional argument, which ends with a `]`.
     in_brackets: bool,
+    /// The color which a switch in the numerator of an infix fraction sets for the denominator.
+    infix_color: Option<(u8, u8, u8)>,
     /// The current style (display/text/script/scriptscript) for the surrounding group.
     style: Style,
     /// The current meaning of the character `|`, which `\set`, `\Set` and `\Braket` change.
@@ -92,6 +94,14 @@ enum SequenceEnd {
     TableCell,
 }
 
+/// An infix fraction, like `a \over b`, whose denominator is being parsed.
+struct InfixFrac<'arena> {
+    numerator: Vec<&'arena Node<'arena>>,
+    with_line: bool,
+    delim: Option<InfixDelim>,
+    color: Option<(u8, u8, u8)>,
+}
+
 impl SequenceEnd {
     #[inline]
     fn matches(self, other: &Token, state: &ParserState<'_>) -> bool {
@@ -100,7 +110,12 @@ impl SequenceEnd {
             SequenceEnd::AnyEndToken => {
                 matches!(
                     other,
-                    Token::Eoi | Token::GroupEnd | Token::End(_) | Token::Right
+                    Token::Eoi
+                        | Token::GroupEnd
+                        | Token::End(_)
+                        | Token::Right
+                        // The whole group is the numerator, including what is before the switch.
+                        | Token::InfixGenFrac { .. }
                 ) || state.env.ends_cell(other)
                     || state.in_brackets && EndToken::SquareBracketClose.matches(other)
             }
@@ -175,6 +190,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 right_boundary_hack: false,
                 env: EnvState::default(),
                 in_brackets: false,
+                infix_color: None,
                 style,
                 vertical_line_def: None,
                 expansions_left: parser_cfg.max_expansions.0,
@@ -223,7 +239,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         keep_end_token: bool,
     ) -> ParseResult<Vec<&'arena Node<'arena>>> {
         let mut nodes = Vec::new();
-        let mut infix_frac: Option<(Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>)> = None;
+        let mut infix_frac: Option<InfixFrac<'arena>> = None;
 
         let mut prev_class = prev_class;
         let old_tf = self.state.transform;
@@ -305,8 +321,24 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             // If there are superscripts or subscripts, we need to wrap the node we just got into
             // one of the node types for superscripts and subscripts.
         }
-        if let Some((numerator, with_line, delim)) = infix_frac {
-            let denominator = mem::replace(&mut nodes, Vec::with_capacity(1));
+        if let Some(InfixFrac {
+            numerator,
+            with_line,
+            delim,
+            color,
+        }) = infix_frac
+        {
+            let mut denominator = mem::replace(&mut nodes, Vec::with_capacity(1));
+            if color.is_some() {
+                let row = self.commit(Node::Row {
+                    nodes: self.arena.push_slice(&denominator),
+                    attrs: RowAttrs {
+                        color,
+                        ..RowAttrs::DEFAULT
+                    },
+                });
+                denominator = vec![row];
+            }
             let (lt_value, lt_unit) = if with_line {
                 Length::none().into_parts()
             } else {
@@ -341,7 +373,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             // Discard the end token.
             self.next_token()?;
         }
-        self.state.transform = old_tf;
+        // After a switch in its numerator, the denominator of an infix fraction is still to come; a
+        // font switch is in effect there as well.
+        let in_numerator = matches!(sequence_end, SequenceEnd::AnyEndToken)
+            && matches!(self.tokens.peek().token(), Token::InfixGenFrac { .. });
+        if !in_numerator {
+            self.state.transform = old_tf;
+        }
         self.state.style = old_style;
         self.state.in_brackets = old_in_brackets;
         (
@@ -357,7 +395,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         tokspan: &TokSpan,
         sequence_end: SequenceEnd,
         collected_nodes: &mut Vec<&'arena Node<'arena>>,
-        infix_frac: &mut Option<(Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>)>,
+        infix_frac: &mut Option<InfixFrac<'arena>>,
     ) -> ParseResult<ControlFlow> {
         let span = tokspan.span().into();
         let result: Result<(), LatexError> = match *tokspan.token() {
@@ -372,7 +410,12 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::InfixGenFrac { with_line, delim } => {
                 if infix_frac.is_none() {
-                    *infix_frac = Some((mem::take(collected_nodes), with_line, delim));
+                    *infix_frac = Some(InfixFrac {
+                        numerator: mem::take(collected_nodes),
+                        with_line,
+                        delim,
+                        color: self.state.infix_color.take(),
+                    });
                     // The numerator was already parsed in the surrounding style (we only
                     // learn it's a fraction here), but we can at least shrink the style
                     // for the denominator. `parse_sequence` restores the style on exit.
@@ -2083,6 +2126,9 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     prev_class,
                     true,
                 )?;
+                if matches!(self.tokens.peek().token(), Token::InfixGenFrac { .. }) {
+                    self.state.infix_color.get_or_insert(color);
+                }
                 Ok(Node::Row {
                     nodes: self.arena.push_slice(&content),
                     attrs: RowAttrs {
-- 
2.43.0


From 16836f56de95e822d5442f28fbee1ddd7c6f42eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 38/50] fix: the degree of a root was parsed in the style of
 the root

It is set in scriptscript style, so `\mathchoice` chose the wrong alternative in it.
---
 crates/math-core/src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 79bf4be..f66c743 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -988,12 +988,15 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 if let Ok(tokloc) = &next
                     && matches!(tokloc.token(), Token::SquareBracketOpen)
                 {
+                    // The degree is set in scriptscript style.
+                    let old_style = mem::replace(&mut self.state.style, Style::ScriptScript);
                     // FIXME: We should perhaps use set `right_boundary_hack` here.
                     let degree = self.parse_sequence(
                         SequenceEnd::EndToken(EndToken::SquareBracketClose),
                         Class::Open,
                         false,
                     )?;
+                    self.state.style = old_style;
                     let content = self.parse_next(ParseAs::Arg)?;
                     Ok(Node::Root(
                         node_vec_to_node(self.arena, &degree, true),
-- 
2.43.0


From 266d1de2091f65bfb81b3f7ceee5fdab5f287424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 39/50] fix: a style switch after a binary operator hid the
 relation which follows it

---
 crates/math-core/src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/math-core/src/token.rs b/crates/math-core/src/token.rs
index 90218d6..62bc678 100644
--- a/crates/math-core/src/token.rs
+++ b/crates/math-core/src/token.rs
@@ -597,6 +597,7 @@ impl Token {
             | Space(_)
             | Overlay(_)
             | TransformSwitch(_)
+            | Style(_)
             | NoNumber
             | Tag { .. }
             | CustomSpace(_)
@@ -640,7 +641,6 @@ impl Token {
             | Enclose(_)
             | Text(_)
             | RaiseBox
-            | Style(_)
             | Cramped
             | Color
             | Phantom(_)
-- 
2.43.0


From 766f136d70356e61cb97ae013ca6bb2bbacffefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 40/50] fix: a table without delimiters was spaced like an
 opening delimiter

---
 crates/math-core/src/environments.rs | 9 +++++++++
 crates/math-core/src/token.rs        | 8 +++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/environments.rs b/crates/math-core/src/environments.rs
index bd240ac..79852a4 100644
--- a/crates/math-core/src/environments.rs
+++ b/crates/math-core/src/environments.rs
@@ -158,6 +158,15 @@ impl Env {
         }
     }
 
+    /// `true` for environments whose output begins with a delimiter.
+    pub(super) fn is_fenced(self) -> bool {
+        use Env::*;
+        matches!(
+            self,
+            Cases | DCases | RCases | DRCases | BMatrix | Bmatrix | PMatrix | VMatrix | Vmatrix
+        )
+    }
+
     pub(super) fn style(self) -> Style {
         use Env::*;
         match self {
diff --git a/crates/math-core/src/token.rs b/crates/math-core/src/token.rs
index 62bc678..a4e43a8 100644
--- a/crates/math-core/src/token.rs
+++ b/crates/math-core/src/token.rs
@@ -551,7 +551,13 @@ impl Token {
         match self.unwrap_math_ref() {
             Relation(_) | ForceRelation(_) | XArrow(_) => Some(Class::Relation),
             Punctuation(_) | ForcePunctuation(_) => Some(Class::Punctuation),
-            Open(_) | Left | SquareBracketOpen | ForceOpen(..) | Begin(_) => Some(Class::Open),
+            Open(_) | Left | SquareBracketOpen | ForceOpen(..) => Some(Class::Open),
+            // A table is an ordinary atom, unless it begins with a delimiter.
+            Begin(env) => Some(if env.is_fenced() {
+                Class::Open
+            } else {
+                Class::Default
+            }),
             // A group is an ordinary atom.
             GroupBegin => Some(Class::Default),
             Close(_) | SquareBracketClose | ForceClose(..) | Right | Middle => Some(Class::Close),
-- 
2.43.0


From 9d8716e1da0d1018898cbef70b4264051ecf20dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 41/50] fix: a binary operator at the start of an aligned cell
 or after a style switch was set as a prefix

---
 crates/math-core/src/environments.rs |  6 ++++++
 crates/math-core/src/parser.rs       | 27 ++++++++++++++++++++++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/environments.rs b/crates/math-core/src/environments.rs
index 79852a4..b0222bc 100644
--- a/crates/math-core/src/environments.rs
+++ b/crates/math-core/src/environments.rs
@@ -158,6 +158,12 @@ impl Env {
         }
     }
 
+    /// `true` for environments in which every other cell continues the formula of the cell before
+    /// it.
+    pub(super) fn is_aligned(self) -> bool {
+        matches!(self, Env::Align | Env::AlignStar | Env::Aligned)
+    }
+
     /// `true` for environments whose output begins with a delimiter.
     pub(super) fn is_fenced(self) -> bool {
         use Env::*;
diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index f66c743..91f1557 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -69,6 +69,11 @@ struct ParserState<'arena> {
     env: EnvState<'arena>,
     /// `true` if the innermost group is an optional argument, which ends with a `]`.
     in_brackets: bool,
+    /// `true` if the next sequence continues the formula before it in a row of its own.
+    continues_formula: bool,
+    /// `true` if the next token begins a row which continues the formula before it. MathML takes
+    /// an operator there to be a prefix operator, unless it is told otherwise.
+    at_start_of_continuation: bool,
     /// The color which a switch in the numerator of an infix fraction sets for the denominator.
     infix_color: Option<(u8, u8, u8)>,
     /// The current style (display/text/script/scriptscript) for the surrounding group.
@@ -190,6 +195,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 right_boundary_hack: false,
                 env: EnvState::default(),
                 in_brackets: false,
+                continues_formula: false,
+                at_start_of_continuation: false,
                 infix_color: None,
                 style,
                 vertical_line_def: None,
@@ -242,6 +249,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         let mut infix_frac: Option<InfixFrac<'arena>> = None;
 
         let mut prev_class = prev_class;
+        let continues_formula = mem::take(&mut self.state.continues_formula);
         let old_tf = self.state.transform;
         let old_style = self.state.style;
         // `&` and `\\` only separate cells at the top level of a table, but not within a group.
@@ -281,6 +289,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         ControlFlow::ProcessToken => {}
                     }
                 }
+                self.state.at_start_of_continuation =
+                    continues_formula && nodes.iter().all(|node| matches!(node, Node::Space(_)));
                 // Parse the token.
                 match self.parse_token_once(cur_tokloc, ParseAs::Sequence, prev_class)? {
                     Parsed::Node(class, node) => (class, node),
@@ -792,9 +802,17 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     false,
                 );
                 class = bin_op_class(parse_as.in_sequence(), prev_class, next_class);
+                let attrs = if parse_as.in_sequence()
+                    && spacing.is_none()
+                    && self.state.at_start_of_continuation
+                {
+                    OpAttrs::FORM_INFIX
+                } else {
+                    OpAttrs::empty()
+                };
                 Ok(Node::Operator {
                     op: binary_op.as_op(),
-                    attrs: OpAttrs::empty(),
+                    attrs,
                     left: spacing,
                     right: spacing,
                     size: None,
@@ -1628,7 +1646,9 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 // (`\displaystyle`, `\color`, `\over`, ...) is limited to the cell they are in.
                 let mut content = Vec::new();
                 let mut cell_prev_class = Class::Open;
+                let mut continues_formula = false;
                 loop {
+                    self.state.continues_formula = continues_formula;
                     content.append(&mut self.parse_sequence_if_in_sequence(
                         parse_as,
                         span,
@@ -1640,6 +1660,10 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         break;
                     }
                     let separator = self.next_token();
+                    // Every other cell of an `align` continues the formula of the cell before it.
+                    continues_formula = env.is_aligned()
+                        && matches!(&separator, Ok(sep) if matches!(sep.token(), Token::NewColumn))
+                        && !continues_formula;
                     let (class, node) =
                         self.parse_token(separator, ParseAs::Sequence, cell_prev_class)?;
                     content.push(node);
@@ -2164,6 +2188,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::Style(style) => {
                 let old_style = mem::replace(&mut self.state.style, style);
+                self.state.continues_formula = true;
                 let content = self.parse_sequence_if_in_sequence(
                     parse_as,
                     span,
-- 
2.43.0


From 45f386a644efe62dc76c8d0f803a48e0e3c839c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 42/50] fix: a lone operator in \phantom or \cramped was spaced
 as an operator

---
 crates/math-core/src/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 91f1557..90de198 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2002,10 +2002,10 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         }
                     };
 
-                    let inner = self.parse_next(ParseAs::Arg)?;
+                    let inner = self.parse_next(ParseAs::ArgWithSpace)?;
                     (style, inner)
                 } else {
-                    let inner = self.parse_token(next, ParseAs::Arg, prev_class)?.1;
+                    let inner = self.parse_token(next, ParseAs::ArgWithSpace, prev_class)?.1;
                     (None, inner)
                 };
 
@@ -2165,7 +2165,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 })
             }
             Token::Phantom(kind) => {
-                let inner = self.parse_next(ParseAs::Arg)?;
+                let inner = self.parse_next(ParseAs::ArgWithSpace)?;
                 match kind {
                     PhantomKind::Full => Ok(Node::Phantom { node: inner }),
                     PhantomKind::H => Ok(Node::Padded {
-- 
2.43.0


From f9af9d209b989cf954450cb01659dd3d46c7549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:06 +0000
Subject: [PATCH 43/50] fix: restore the meaning of `|` from before when a
 nested \set, \Set or \Braket ends

---
 crates/math-core/src/parser.rs | 17 +++++++++++------
 crates/math-core/src/token.rs  |  3 ++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 90de198..d80c47e 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -78,8 +78,9 @@ struct ParserState<'arena> {
     infix_color: Option<(u8, u8, u8)>,
     /// The current style (display/text/script/scriptscript) for the surrounding group.
     style: Style,
-    /// The current meaning of the character `|`, which `\set`, `\Set` and `\Braket` change.
-    vertical_line_def: Option<VerticalLineDef>,
+    /// The meanings of the character `|`, which `\set`, `\Set` and `\Braket` change; the current
+    /// one is the last. When one of these commands ends, the meaning from before it is restored.
+    vertical_line_defs: Vec<VerticalLineDef>,
     /// How many more custom commands may be expanded before we give up.
     ///
     /// Names are resolved when a command is expanded, so a definition may refer to itself,
@@ -199,7 +200,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 at_start_of_continuation: false,
                 infix_color: None,
                 style,
-                vertical_line_def: None,
+                vertical_line_defs: Vec::new(),
                 expansions_left: parser_cfg.max_expansions.0,
                 nesting: 0,
             },
@@ -459,7 +460,11 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 Ok(())
             }
             Token::VerticalLineDef(def) => {
-                self.state.vertical_line_def = def;
+                if let Some(def) = def {
+                    self.state.vertical_line_defs.push(def);
+                } else {
+                    self.state.vertical_line_defs.pop();
+                }
                 Ok(())
             }
             Token::NoNumber => {
@@ -730,7 +735,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::Ord(ord) => 'ord: {
                 if matches!(ord, symbol::VERTICAL_LINE)
-                    && let Some(vld) = self.state.vertical_line_def
+                    && let Some(&vld) = self.state.vertical_line_defs.last()
                 {
                     let mut attrs = OpAttrs::FORM_INFIX;
                     // For vertical line, `form="infix"` implies relation spacing, so we can set
@@ -3524,7 +3529,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             return Ok(Class::Default);
         }
         let (token_idx, class) = self.tokens.peek_class_token()?;
-        if let Some(vld) = self.state.vertical_line_def
+        if let Some(&vld) = self.state.vertical_line_defs.last()
             && matches!(
                 self.tokens
                     .get_token_by_index(token_idx)
diff --git a/crates/math-core/src/token.rs b/crates/math-core/src/token.rs
index a4e43a8..de74b3b 100644
--- a/crates/math-core/src/token.rs
+++ b/crates/math-core/src/token.rs
@@ -233,7 +233,8 @@ pub enum Token {
     /// is the character that the command produces, e.g. `{` for `\{`.
     MathOrTextMode(&'static Token, char),
     /// A token which changes the meaning of the character `|` for the rest of the
-    /// surrounding sequence. This is how `\set`, `\Set` and `\Braket` "redefine" `|`.
+    /// surrounding sequence. This is how `\set`, `\Set` and `\Braket` "redefine" `|`; with
+    /// `None`, they restore the meaning from before.
     VerticalLineDef(Option<VerticalLineDef>),
     /// A command that hasn't been resolved yet, either because nothing of that name is defined
     /// (yet) or because it comes from the body of a custom command, where names are deliberately
-- 
2.43.0


From 94ad1f589e1a12173f4e7e09a3e348a0e3d72948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:39 +0000
Subject: [PATCH 44/50] fix: point at the letter of an incomplete unit in \kern
 when it comes from a macro

---
 crates/math-core/src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index d80c47e..6712836 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -3420,10 +3420,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 None
             };
             let Some(unit_char) = unit_char else {
-                let start = unit_start.unwrap_or(peek_span.start());
+                let unit_span = match unit_start {
+                    Some(start) => start..arg_end,
+                    None => peek_span.start()..peek_span.start(),
+                };
                 let unit_str = core::str::from_utf8(&unit[..i]).unwrap_or("");
                 return Err(Box::new(LatexError(
-                    start..peek_span.start(),
+                    unit_span,
                     LatexErrKind::InvalidUnit(KString::from_ref(unit_str)),
                 )));
             };
-- 
2.43.0


From 0698ed9545f8f66b9366d1153d06e88a3f319cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:39 +0000
Subject: [PATCH 45/50] fix: keep the size of a \big delimiter that is a braced
 argument on its own

---
 crates/math-core/src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 6712836..2d1d31d 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -3696,13 +3696,16 @@ pub(crate) fn node_vec_to_node<'arena>(
 ) -> &'arena Node<'arena> {
     if let [single] = nodes {
         if reset_spacing {
-            if let Node::Operator { op, attrs, .. } = **single {
+            if let Node::Operator {
+                op, attrs, size, ..
+            } = **single
+            {
                 arena.push(Node::Operator {
                     op,
                     attrs,
                     left: None,
                     right: None,
-                    size: None,
+                    size,
                 })
             } else {
                 single
-- 
2.43.0


From cfd59e8714d678802706c91bb04cd375dc31da82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:39 +0000
Subject: [PATCH 46/50] fix: set the spacing of a lone operator in a numerator
 when it is in braces

---
 crates/math-core/src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 2d1d31d..a7ef2ad 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1053,7 +1053,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     _ => attr,
                 };
                 let old_style = mem::replace(&mut self.state.style, inner_style);
-                let num = self.parse_next(ParseAs::Arg)?;
+                // The numerator may be the core of the fraction as an embellished operator.
+                let num = self.parse_next(ParseAs::ArgWithSpace)?;
                 let denom = self.parse_next(ParseAs::Arg)?;
                 self.state.style = old_style;
                 if matches!(cur_token, Token::Binom(_)) {
@@ -1135,7 +1136,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 } else {
                     None
                 };
-                let num = self.parse_next(ParseAs::Arg)?;
+                // The numerator may be the core of the fraction as an embellished operator.
+                let num = self.parse_next(ParseAs::ArgWithSpace)?;
                 let denom = self.parse_next(ParseAs::Arg)?;
                 let attr = None;
                 let (lt_value, lt_unit) = lt.into_parts();
-- 
2.43.0


From 677c481ad854b58eba1ac9744d1ca67826d7a748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:39 +0000
Subject: [PATCH 47/50] fix: let an infix fraction command end the formula for
 the spacing of operators

---
 crates/math-core/src/token.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/token.rs b/crates/math-core/src/token.rs
index de74b3b..91849b7 100644
--- a/crates/math-core/src/token.rs
+++ b/crates/math-core/src/token.rs
@@ -568,7 +568,9 @@ impl Token {
             | PseudoOperator(_)
             | PseudoOperatorLimits(_)
             | OperatorName { .. } => Some(Class::Operator),
-            End(_) | NewLine | NewColumn | GroupEnd | Eoi => Some(Class::End),
+            End(_) | NewLine | NewColumn | GroupEnd | InfixGenFrac { .. } | Eoi => {
+                Some(Class::End)
+            }
             Inner(_) | ForceMathInner(_) | Dots => Some(Class::Inner),
             Big(_, Some(paren_type)) => Some(match paren_type {
                 ParenType::Left => Class::Open,
@@ -631,7 +633,6 @@ impl Token {
             | Digit(_)
             | Big(_, None)
             | Frac(_)
-            | InfixGenFrac { .. }
             | Genfrac
             | Underscore
             | Circumflex
-- 
2.43.0


From 9cbf6044602fffa845643c84fd6b65d4aa033f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:41 +0000
Subject: [PATCH 48/50] fix: let the denominator of an infix fraction begin
 anew for the spacing of operators

---
 crates/math-core/src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index a7ef2ad..f418620 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -286,7 +286,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         &mut nodes,
                         &mut infix_frac,
                     )? {
-                        ControlFlow::SkipToken => continue,
+                        ControlFlow::SkipToken => {
+                            // The denominator of an infix fraction is a formula of its own.
+                            if matches!(tokloc.token(), Token::InfixGenFrac { .. }) {
+                                prev_class = Class::Open;
+                            }
+                            continue;
+                        }
                         ControlFlow::ProcessToken => {}
                     }
                 }
-- 
2.43.0


From 63069f4fe64510a271f88e88542037a2cac902ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:05 +0000
Subject: [PATCH 49/50] fix: look past the scripts of an operator for what
 follows it

---
 crates/math-core/src/parser.rs | 47 ++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index f418620..a7cb3ad 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -315,6 +315,11 @@ impl<'state, 'arena> Parser<'state, 'arena> {
 
             // Check if there are any superscripts or subscripts following the parsed node.
             let bounds = self.get_bounds(None)?.ensure_no_explicit_limits()?;
+            let target = if bounds.is_trivial() {
+                target
+            } else {
+                self.respace_operator(&mut prev_class, target)?
+            };
 
             match target {
                 Node::Multiscripts {
@@ -3535,6 +3540,48 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         }
     }
 
+    /// Adjust the spacing of an operator to what follows it, if that could not be looked at when the
+    /// operator was parsed because its scripts come first.
+    fn respace_operator(
+        &mut self,
+        class: &mut Class,
+        node: &'arena Node<'arena>,
+    ) -> ParseResult<&'arena Node<'arena>> {
+        let Node::Operator {
+            op,
+            attrs,
+            left,
+            size,
+            ..
+        } = *node
+        else {
+            return Ok(node);
+        };
+        let next_class = self.peek_class_token(true)?;
+        let next_class = if self.state.right_boundary_hack && matches!(next_class, Class::End) {
+            Class::Default
+        } else {
+            next_class
+        };
+        let left = match (&class, next_class) {
+            (Class::Relation, Class::Relation | Class::Punctuation | Class::Close | Class::End)
+            | (Class::Punctuation, Class::End) => left,
+            (Class::BinaryOp, Class::Relation | Class::Punctuation | Class::Close | Class::End) => {
+                // There is nothing to operate on.
+                *class = Class::Default;
+                Some(MathSpacing::Zero)
+            }
+            _ => return Ok(node),
+        };
+        Ok(self.arena.push(Node::Operator {
+            op,
+            attrs,
+            left,
+            right: Some(MathSpacing::Zero),
+            size,
+        }))
+    }
+
     fn peek_class_token(&mut self, in_sequence: bool) -> ParseResult<Class> {
         if !in_sequence {
             return Ok(Class::Default);
-- 
2.43.0


From 41ce1ba5def1f5cc524863d4e84f40e594f3674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:08 +0000
Subject: [PATCH 50/50] fix: end the spacing of an operator in a stack where
 its formula ends

---
 crates/math-core/src/parser.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index a7cb3ad..f2bb9a5 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1185,6 +1185,28 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     self.parse_token(token, ParseAs::ContinueSequence, prev_class)?;
                 self.state.right_boundary_hack = old_boundary_hack;
                 class = cls;
+                let target = match *target {
+                    // Here, the boundary is a real one.
+                    Node::Operator {
+                        op,
+                        attrs,
+                        left,
+                        size,
+                        ..
+                    } if parse_as.in_sequence()
+                        && !old_boundary_hack
+                        && matches!(self.peek_class_token(true)?, Class::End) =>
+                    {
+                        self.arena.push(Node::Operator {
+                            op,
+                            attrs,
+                            left,
+                            right: Some(MathSpacing::Zero),
+                            size,
+                        })
+                    }
+                    _ => target,
+                };
                 if matches!(cur_token, Token::Overset) {
                     Ok(Node::Over { symbol, target })
                 } else {
-- 
2.43.0

