From ada80da422e9b1bdbe76420db53fe15763ffb58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 01/16] fix: FIRST of a left-recursive non-terminal recursed
 until the stack overflowed

---
 src/lalr/first.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lalr/first.rs b/src/lalr/first.rs
index b77ba6d..c8d2d27 100644
--- a/src/lalr/first.rs
+++ b/src/lalr/first.rs
@@ -1,6 +1,6 @@
 use std::collections::BTreeSet;
 
-use crate::parser::{Grammar, Symbol};
+use crate::parser::{ast::Ident, Grammar, Symbol};
 
 pub fn first<'ast, I>(
     // bump: &'ast Bump,
@@ -14,7 +14,7 @@ where
 
     let mut prev_has_epsilon = true;
     for symbol in symbols {
-        let _ = first_of_symbol(grammar, &mut set, symbol);
+        let _ = first_of_symbol(grammar, &mut set, &mut BTreeSet::new(), symbol);
         prev_has_epsilon = set.remove(&Symbol::Epsilon);
         if !prev_has_epsilon {
             break;
@@ -32,6 +32,7 @@ where
 fn first_of_symbol<'ast>(
     grammar: &'ast Grammar<'ast>,
     set: &mut BTreeSet<&'ast Symbol<'ast>>,
+    visited: &mut BTreeSet<Ident<'ast>>,
     symbol: &'ast Symbol<'ast>,
 ) -> bool {
     let non_terminal = match symbol.as_non_terminal() {
@@ -42,10 +43,15 @@ fn first_of_symbol<'ast>(
         }
     };
 
+    // A non-terminal that is already being expanded (left recursion) has nothing to add
+    if !visited.insert(*non_terminal) {
+        return false;
+    }
+
     let mut added_epsilon = false;
     for (_, production) in grammar.production_iter(*non_terminal) {
         'input_token_iter: for input_token in production.input_tokens.iter() {
-            if !first_of_symbol(grammar, set, input_token) {
+            if !first_of_symbol(grammar, set, visited, input_token) {
                 break 'input_token_iter;
             } else {
                 added_epsilon = true;
-- 
2.43.0


From 88b560d113de0d1b117a71f44209131b6ca4e2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 02/16] fix: two items of a state shifting the same terminal
 were reported as a conflict

---
 src/lalr/table.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lalr/table.rs b/src/lalr/table.rs
index f54079e..dca8e27 100644
--- a/src/lalr/table.rs
+++ b/src/lalr/table.rs
@@ -136,7 +136,11 @@ pub fn make_lalr_tables<'ast>(
                     };
 
                     match action.entry((i as u32, token_idx)) {
-                        Entry::Vacant(entry) => entry.insert(Action::Shift(j as u32)),
+                        Entry::Vacant(entry) => {
+                            entry.insert(Action::Shift(j as u32));
+                        }
+                        // Several items of a state may shift the same terminal
+                        Entry::Occupied(entry) if *entry.get() == Action::Shift(j as u32) => (),
                         Entry::Occupied(_) => panic!("Conflict ({}, {:?})", i, token_idx),
                     };
                 }
-- 
2.43.0


From 7b92b4006886df2f2299e571f2853a9b49bf8eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 03/16] fix: shifts and gotos out of a merged state were
 dropped when the target had merged further

---
 src/lalr/item.rs  | 5 +++++
 src/lalr/table.rs | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lalr/item.rs b/src/lalr/item.rs
index 75d5d57..3eccb5f 100644
--- a/src/lalr/item.rs
+++ b/src/lalr/item.rs
@@ -162,6 +162,11 @@ impl ItemSet {
         h.finish()
     }
 
+    /// `true` if both sets consist of the same LR(0) items, whatever their lookaheads
+    pub fn same_core(&self, other: &Self) -> bool {
+        self.0.keys().eq(other.0.keys())
+    }
+
     /// Form a union of two item sets.
     ///
     /// It is incorrect to call this with two item sets that don't share the same core
diff --git a/src/lalr/table.rs b/src/lalr/table.rs
index dca8e27..4122215 100644
--- a/src/lalr/table.rs
+++ b/src/lalr/table.rs
@@ -109,7 +109,7 @@ pub fn make_lalr_tables<'ast>(
         let lr_idx = match lr_sets.get_index_of(&goto_ia) {
             Some(i) => i,
             None => {
-                return lalr_sets.get_index_of(&goto_ia);
+                return lalr_sets.iter().position(|set| set.same_core(&goto_ia));
             }
         };
         lr_to_lalr.get(&lr_idx).cloned()
@@ -189,7 +189,7 @@ pub fn make_lalr_tables<'ast>(
                         *lr_to_lalr.get(&j).expect("LR -> LALR"),
                     );
                 }
-                None => match lalr_sets.get_index_of(&goto_ia) {
+                None => match lalr_sets.iter().position(|set| set.same_core(&goto_ia)) {
                     Some(j) => {
                         goto.insert((i as u32, *production_name), j);
                     }
-- 
2.43.0


From c55ef18eb27fa406ba24cdb9b1fc0dd6cbdd7a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:09 +0000
Subject: [PATCH 04/16] fix: token values were sliced by character index
 instead of byte offset

---
 src/lex/lex.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index 72b5cd8..da3bb43 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -155,7 +155,7 @@ impl Lex {
     }
 
     pub fn lex(&self, input: &str) -> Vec<Token> {
-        let chars: Vec<char> = input.chars().collect();
+        let chars: Vec<(usize, char)> = input.char_indices().collect();
         let mut tokens = vec![];
         let mut state_idx = StateIdx(0);
 
@@ -165,7 +165,7 @@ impl Lex {
         let mut last_accepting_state: Option<(usize, StateIdx)> = None;
 
         while forward < chars.len() {
-            let c = chars[forward];
+            let (_, c) = chars[forward];
 
             let matching_edge = match self.dfa.edge_iter(state_idx) {
                 Some(mut edge_iter) => edge_iter.find(|edge| edge.label.matches(c)),
@@ -187,6 +187,7 @@ impl Lex {
             println!("LEXEME_BEGIN: {} FORWARD: {}", lexeme_begin, last_accepting_idx);
                         let tok = self.make_tok(
                             input,
+                            &chars,
                             lexeme_begin,
                             last_accepting_idx,
                             last_accepting_state_idx,
@@ -212,6 +213,7 @@ impl Lex {
             println!("LEXEME_BEGIN: {} FORWARD: {}", lexeme_begin, _last_accepting_idx);
             tokens.push(self.make_tok(
                 input,
+                &chars,
                 lexeme_begin,
                 _last_accepting_idx,
                 last_accepting_state_idx,
@@ -224,6 +226,7 @@ impl Lex {
     fn make_tok(
         &self,
         input: &str,
+        chars: &[(usize, char)],
         start: usize,
         end: usize,
         last_accepting_state_idx: StateIdx,
@@ -235,7 +238,8 @@ impl Lex {
                 ..
             }) => {
                 // let val = char_vec.iter().collect::<String>();
-                let val = input[start..(end + 1)].to_string();
+                let (last_pos, last_char) = chars[end];
+                let val = input[chars[start].0..(last_pos + last_char.len_utf8())].to_string();
                 Token::new_with_val(name.clone(), val)
             }
             Some(TokenDef {
-- 
2.43.0


From 4b03503d93a9a0f109aff193eb1bc1ef0b2be4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 05/16] fix: the lexer dropped the rest of the input when it
 ended in the middle of a longer token

---
 src/lex/lex.rs | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index da3bb43..699dbaa 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -164,12 +164,14 @@ impl Lex {
 
         let mut last_accepting_state: Option<(usize, StateIdx)> = None;
 
-        while forward < chars.len() {
-            let (_, c) = chars[forward];
-
-            let matching_edge = match self.dfa.edge_iter(state_idx) {
-                Some(mut edge_iter) => edge_iter.find(|edge| edge.label.matches(c)),
-                None => None,
+        // A pending accepting state means there is still a token to emit, and that the
+        // characters after it may have to be lexed again
+        while forward < chars.len() || last_accepting_state.is_some() {
+            let c = chars.get(forward).map(|(_, c)| *c);
+
+            let matching_edge = match (self.dfa.edge_iter(state_idx), c) {
+                (Some(mut edge_iter), Some(c)) => edge_iter.find(|edge| edge.label.matches(c)),
+                _ => None,
             };
 
             match matching_edge {
@@ -199,7 +201,7 @@ impl Lex {
                         state_idx = StateIdx(0);
 
                         last_accepting_state = None;
-                    } else if Self::is_whitespace(c) && forward == lexeme_begin {
+                    } else if c.map_or(false, Self::is_whitespace) && forward == lexeme_begin {
                         forward += 1;
                         lexeme_begin += 1;
                     } else {
@@ -209,17 +211,6 @@ impl Lex {
             }
         }
 
-        if let Some((_last_accepting_idx, last_accepting_state_idx)) = last_accepting_state {
-            println!("LEXEME_BEGIN: {} FORWARD: {}", lexeme_begin, _last_accepting_idx);
-            tokens.push(self.make_tok(
-                input,
-                &chars,
-                lexeme_begin,
-                _last_accepting_idx,
-                last_accepting_state_idx,
-            ));
-        }
-
         tokens
     }
 
-- 
2.43.0


From 6c43c5a61f1b748ae8a6c1b31288653adac6eb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 06/16] fix: parse accepted input whose tail is not a token of
 the grammar

---
 src/lalr.rs    | 5 ++++-
 src/lex/lex.rs | 9 ++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lalr.rs b/src/lalr.rs
index 420d83d..d659c0d 100644
--- a/src/lalr.rs
+++ b/src/lalr.rs
@@ -42,7 +42,10 @@ impl<'ast> Lalr<'ast> {
     }
 
     pub fn parse(&self, input: &str) -> String {
-        let tokens = self.lexer.lex(input);
+        let (tokens, stopped_at) = self.lexer.lex_until(input);
+        if stopped_at != input.len() {
+            panic!("Invalid symbol at {}: {:?}", stopped_at, &input[stopped_at..]);
+        }
         let tokens_with_idx = self.lexer.convert_tokens(tokens);
 
         self.parse_impl(&tokens_with_idx)
diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index 699dbaa..314e7a9 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -154,7 +154,13 @@ impl Lex {
         }
     }
 
+    /// Lex `input` up to the first position no token starts at
     pub fn lex(&self, input: &str) -> Vec<Token> {
+        self.lex_until(input).0
+    }
+
+    /// Lex `input`, also returns the byte position lexing stopped at
+    pub(crate) fn lex_until(&self, input: &str) -> (Vec<Token>, usize) {
         let chars: Vec<(usize, char)> = input.char_indices().collect();
         let mut tokens = vec![];
         let mut state_idx = StateIdx(0);
@@ -211,7 +217,8 @@ impl Lex {
             }
         }
 
-        tokens
+        let stopped_at = chars.get(lexeme_begin).map_or(input.len(), |(pos, _)| *pos);
+        (tokens, stopped_at)
     }
 
     fn make_tok(
-- 
2.43.0


From 94da83ee34beff6858cb020498d0b9a0f44485e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 07/16] fix: a literal was parsed as the regex of the same
 spelling

---
 src/lalr.rs    | 10 +++++++++-
 src/lex/lex.rs | 14 ++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/lalr.rs b/src/lalr.rs
index d659c0d..92e6b42 100644
--- a/src/lalr.rs
+++ b/src/lalr.rs
@@ -46,7 +46,15 @@ impl<'ast> Lalr<'ast> {
         if stopped_at != input.len() {
             panic!("Invalid symbol at {}: {:?}", stopped_at, &input[stopped_at..]);
         }
-        let tokens_with_idx = self.lexer.convert_tokens(tokens);
+        // A literal and a regex may be spelled the same, so their names can't tell them apart
+        let tokens_with_idx: Vec<_> = tokens
+            .into_iter()
+            .map(|(token, token_idx)| (token, TokenIdx(token_idx.unwrap())))
+            .chain(std::iter::once((
+                Token::new("EOF".into()),
+                Grammar::EOF_TOKEN_IDX,
+            )))
+            .collect();
 
         self.parse_impl(&tokens_with_idx)
     }
diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index 314e7a9..e6a55df 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -156,11 +156,16 @@ impl Lex {
 
     /// Lex `input` up to the first position no token starts at
     pub fn lex(&self, input: &str) -> Vec<Token> {
-        self.lex_until(input).0
+        self.lex_until(input)
+            .0
+            .into_iter()
+            .map(|(token, _)| token)
+            .collect()
     }
 
-    /// Lex `input`, also returns the byte position lexing stopped at
-    pub(crate) fn lex_until(&self, input: &str) -> (Vec<Token>, usize) {
+    /// Lex `input`, also returns the index each token has in the grammar and the byte position
+    /// lexing stopped at
+    pub(crate) fn lex_until(&self, input: &str) -> (Vec<(Token, Option<u32>)>, usize) {
         let chars: Vec<(usize, char)> = input.char_indices().collect();
         let mut tokens = vec![];
         let mut state_idx = StateIdx(0);
@@ -200,7 +205,8 @@ impl Lex {
                             last_accepting_idx,
                             last_accepting_state_idx,
                         );
-                        tokens.push(tok);
+                        let token_idx = self.tokens[&last_accepting_state_idx].token_idx;
+                        tokens.push((tok, token_idx));
 
                         lexeme_begin = last_accepting_idx + 1;
                         forward = last_accepting_idx + 1;
-- 
2.43.0


From f3c48be49193e8e91bc2072d86ae56eb43d9a5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 08/16] fix: DFA::test accepted prefixes of matches and refused
 non-ASCII ones

---
 src/lex/dfa.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/lex/dfa.rs b/src/lex/dfa.rs
index c2d8e45..e1c8266 100644
--- a/src/lex/dfa.rs
+++ b/src/lex/dfa.rs
@@ -17,6 +17,8 @@ pub struct DFA {
     pub(crate) dfa_to_nfa: BTreeMap<StateIdx, BTreeSet<StateIdx>>,
     /// These are the accepting states from the NFA this DFA was derived from
     pub accepting_states: BTreeSet<StateIdx>,
+    /// `true` when the start state is accepting
+    pub(crate) accepts_empty: bool,
 }
 
 #[derive(Clone, Debug)]
@@ -111,18 +113,21 @@ impl DFA {
 
         let mut eaten = 0;
         for c in s.chars() {
-            if let Some(mut edge_iter) = self.edge_iter(state_idx) {
-                match edge_iter.find(|edge| edge.label.matches(c)) {
-                    Some(edge) => {
-                        eaten += 1;
-                        state_idx = edge.to;
-                    }
-                    None => break,
+            let matching_edge = self
+                .edge_iter(state_idx)
+                .and_then(|mut edge_iter| edge_iter.find(|edge| edge.label.matches(c)));
+            match matching_edge {
+                Some(edge) => {
+                    eaten += c.len_utf8();
+                    state_idx = edge.to;
                 }
+                None => break,
             }
         }
 
-        if self.dfa_to_nfa.contains_key(&state_idx) {
+        if self.dfa_state_is_accepting(state_idx)
+            || (state_idx == Self::START_IDX && self.accepts_empty)
+        {
             Some(eaten)
         } else {
             None
@@ -219,6 +224,7 @@ impl DFABuilder {
         }
 
         let accepting_states = nfa.accepting_states();
+        let accepts_empty = !d_states[0].is_disjoint(&accepting_states);
         let mut final_states = Vec::with_capacity(d_states.capacity());
 
         for (i, _states) in d_states.into_iter().enumerate() {
@@ -232,6 +238,7 @@ impl DFABuilder {
             dfa_to_nfa,
             states: final_states,
             accepting_states,
+            accepts_empty,
         }
     }
 
-- 
2.43.0


From af003a7ccc594c714a4d32bcfe4f48b2b3343a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 09/16] fix: generated parser did not parse as TypeScript for
 named regexes and quotes in literals

---
 src/codegen/parse_gen.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index ec90cc2..a6fd3bb 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -289,7 +289,7 @@ export type Token =
                     Symbol::Epsilon => continue,
                     Symbol::Eof => "EOF",
                 };
-                writeln!(w, "'{}': {}", name, idx)?;
+                writeln!(w, r#""{}": {}"#, name, idx)?;
             }
             w.write_str("\n}\n")?;
             Ok(())
@@ -496,7 +496,7 @@ export type Token =
                             named_sym.name
                         ));
                         cond_stack.push(format!(
-                            "__{}['token']['value'] extends infer {} extends '{}'",
+                            r#"__{}['token']['value'] extends infer {} extends "{}""#,
                             named_sym.name, named_sym.name, str_lit,
                         ));
                         else_stack.push(format!(
@@ -514,7 +514,7 @@ export type Token =
                             named_sym.name
                         ));
                         cond_stack.push(format!(
-                            "__{}['token']['value'] extends infer {} extendsstring",
+                            "__{}['token']['value'] extends infer {} extends string",
                             named_sym.name, named_sym.name
                         ));
                         else_stack.push(format!(
-- 
2.43.0


From 3cc4a890b4edae68c625a0127ef4d8547599e8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:19 +0000
Subject: [PATCH 10/16] fix: an empty branch or group in a regex panicked when
 compiling the NFA

---
 src/lex/nfa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex/nfa.rs b/src/lex/nfa.rs
index a5fb31f..ac717d3 100644
--- a/src/lex/nfa.rs
+++ b/src/lex/nfa.rs
@@ -102,7 +102,7 @@ impl NFA {
 
     fn compile(&mut self, regex: &RegexHir, accept: StateIdx) -> OptionUsize<StateIdx> {
         match regex.kind() {
-            HirKind::Empty => OptionUsize::none(),
+            HirKind::Empty => OptionUsize::some(accept),
             HirKind::Literal(lit) => self.compile_match(
                 match lit {
                     Literal::Unicode(c) => Match::char(*c),
-- 
2.43.0


From 9213896093099bed38aab1408dca56edb4b7b9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 11/16] fix: strings and parameter lists allocated in the Bump
 kept heap memory that was never freed

---
 src/codegen/parse_gen.rs | 13 +++++++------
 src/parser/mod.rs        |  2 +-
 src/parser/support.rs    | 14 +++++++-------
 3 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index a6fd3bb..1dcc2d0 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -55,7 +55,7 @@ mod ts {
         name: Ident<'ast>,
         production_idx: ProductionIdx,
         code: &'ast str,
-        inputs: Vec<ActionImplParam<'ast>>,
+        inputs: bumpalo::collections::Vec<'ast, ActionImplParam<'ast>>,
     }
 
     enum ActionImplParam<'ast> {
@@ -99,11 +99,12 @@ mod ts {
                         name,
                         production_idx: ProductionIdx((starting_production_idx + i) as u32),
                         code: body.mapping_fn,
-                        inputs: body
-                            .input_tokens
-                            .iter()
-                            .filter_map(|symbol| ActionImplParam::from_input_symbols(bump, symbol))
-                            .collect(),
+                        inputs: bumpalo::collections::Vec::from_iter_in(
+                            body.input_tokens
+                                .iter()
+                                .filter_map(|symbol| ActionImplParam::from_input_symbols(bump, symbol)),
+                            bump,
+                        ),
                     }) as &'ast _
                 })
                 .collect();
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index a7e1e0a..b82c84f 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -65,7 +65,7 @@ impl<'ast> Grammar<'ast> {
             .iter()
             .find(|prod| prod.is_start)
             .expect("Expect start production.");
-        let augmented_start_name = Ident(bump.alloc(format!("{}'", start_symbol.name)));
+        let augmented_start_name = Ident(bump.alloc_str(&format!("{}'", start_symbol.name)));
 
         production_name_map.insert(
             augmented_start_name,
diff --git a/src/parser/support.rs b/src/parser/support.rs
index f770b05..3c63b50 100644
--- a/src/parser/support.rs
+++ b/src/parser/support.rs
@@ -12,12 +12,12 @@ impl<'ast> ParserSupport<'ast> {
     }
 
     pub fn alloc_str<'a>(&self, s: &'a str) -> &'ast mut str {
-        self.ast.alloc(s.chars().collect::<String>())
+        self.ast.alloc_str(s)
     }
 
     pub fn alloc_quoted_str<'a>(&self, s: &'a str) -> &'ast mut str {
-        self.ast.alloc(
-            s.chars()
+        self.ast.alloc_str(
+            &s.chars()
                 .skip(1)
                 .take(s.chars().count() - 2)
                 .collect::<String>(),
@@ -25,8 +25,8 @@ impl<'ast> ParserSupport<'ast> {
     }
 
     pub fn alloc_ts_code<'a>(&self, ts_code_with_paren: &'a str) -> &'ast mut str {
-        self.ast.alloc(
-            ts_code_with_paren
+        self.ast.alloc_str(
+            &ts_code_with_paren
                 .chars()
                 .skip(1)
                 .take(ts_code_with_paren.chars().count() - 2)
@@ -36,7 +36,7 @@ impl<'ast> ParserSupport<'ast> {
 
     pub fn alloc_regex<'a>(&self, regex_str_with_quotes: &'a str) -> &'ast mut str {
         if regex_str_with_quotes.len() < 3 {
-            return self.ast.alloc("".to_owned());
+            return self.ast.alloc_str("");
         }
 
         let regex_trimmed = regex_str_with_quotes
@@ -45,6 +45,6 @@ impl<'ast> ParserSupport<'ast> {
             .take(regex_str_with_quotes.chars().count() - 2)
             .collect::<String>();
 
-        self.ast.alloc(regex_trimmed)
+        self.ast.alloc_str(&regex_trimmed)
     }
 }
-- 
2.43.0


From a60ecba9498397506c3e08dd44fdf58be029a4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 12/16] fix: lexing and parsing panicked when stdout could not
 be written to

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0d97f50..06692c1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,6 +1,15 @@
 use bumpalo::Bump;
 use parser::ast;
 
+/// Like `std::println!`, but a diagnostic that can't be written doesn't take the caller down
+#[cfg(not(test))]
+macro_rules! println {
+    ($($arg:tt)*) => {{
+        use std::io::Write;
+        let _ = writeln!(std::io::stdout(), $($arg)*);
+    }};
+}
+
 pub mod codegen;
 pub mod lalr;
 pub mod lex;
-- 
2.43.0


From 50f70285267a3f1688bbed980d9acfa0eb9ba2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 13/16] sim hook: bound the code point scan of generate_chars
 under --cfg typelalr_sim

---
 src/codegen/lex_gen.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/codegen/lex_gen.rs b/src/codegen/lex_gen.rs
index cdc14bd..fd0ea42 100644
--- a/src/codegen/lex_gen.rs
+++ b/src/codegen/lex_gen.rs
@@ -215,7 +215,12 @@ fn generate_chars() -> BTreeMap<char, u32> {
         _ => panic!(),
     };
 
+    #[allow(unexpected_cfgs)]
     fn range_to_char_vec(r: Range<u32>) -> Vec<char> {
+        // Simulation only (`--cfg typelalr_sim`): `i as u8` repeats every 256 code points, so
+        // the rest of a range yields no new chars, and instrumented it takes over a second
+        #[cfg(typelalr_sim)]
+        let r = r.start..r.end.min(r.start + 256);
         let mut chars = Vec::with_capacity(r.len());
         for i in r {
             // just gonna support a limited amount of chars for now
-- 
2.43.0


From e89676e6c3d961aef9512ccd5ceb3b459ff98ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:30 +0000
Subject: [PATCH 14/16] fix: overlapping character classes could leave
 overlapping ranges in the alphabet, and the wrong token won

---
 src/lex/dfa.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lex/dfa.rs b/src/lex/dfa.rs
index e1c8266..df3da4c 100644
--- a/src/lex/dfa.rs
+++ b/src/lex/dfa.rs
@@ -344,11 +344,12 @@ fn add_range(range: &Match, start_index: usize, disjoint_ranges: &mut Vec<Match>
             assert!(low_range.is_disjoint(&max_range));
             assert!(mid_range.is_disjoint(&max_range));
 
-            // Replace the existing range with the low range, and then
-            // add the mid and max ranges in. (The low range may be
-            // empty, but we'll prune that out later.)
-            disjoint_ranges[index] = low_range;
-            add_range(&mid_range, index + 1, disjoint_ranges);
+            // Replace the existing range with the mid range, which is
+            // part of it, and then add the low and max ranges in: when
+            // they are part of the range being added, they may overlap
+            // ranges further on.
+            disjoint_ranges[index] = mid_range;
+            add_range(&low_range, index + 1, disjoint_ranges);
             add_range(&max_range, index + 1, disjoint_ranges);
         }
 
-- 
2.43.0


From 145f1814bce38a08f5cdd6401d3ea1ab5dcc4450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:03 +0000
Subject: [PATCH 15/16] fix: a terminal with a line break in it left an
 unterminated string in the artifacts

---
 src/codegen/lex_gen.rs   |  7 ++++++-
 src/codegen/parse_gen.rs | 13 +++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/codegen/lex_gen.rs b/src/codegen/lex_gen.rs
index fd0ea42..bfa7325 100644
--- a/src/codegen/lex_gen.rs
+++ b/src/codegen/lex_gen.rs
@@ -24,6 +24,11 @@ fn nice_case(s: &str) -> String {
     }
 }
 
+/// A terminal is spelled in TypeScript as it is in the grammar, but a string literal can't span lines
+pub(super) fn ts_spelling(terminal: &str) -> String {
+    terminal.replace('\n', "\\n").replace('\r', "\\r")
+}
+
 mod ts {
     use std::collections::{BTreeMap, BTreeSet};
 
@@ -100,7 +105,7 @@ mod ts {
                 
                 "#,
                     i,
-                    kind,
+                    super::ts_spelling(kind),
                     if *has_value { "true" } else { "false" }
                 ));
             }
diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index 1dcc2d0..7afa469 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -8,6 +8,7 @@ mod ts {
     use bumpalo::Bump;
 
     use crate::{
+        codegen::lex_gen::ts_spelling,
         lalr::{item::ProductionIdx, table, Lalr},
         parser::{
             ast::{self, Ident, InputSymbol, NamedSymbol},
@@ -204,7 +205,9 @@ export type Token =
                     w,
                     r#"
                 {}: {{ kind: "{}", value: "{}" }}"#,
-                    i, kind, value
+                    i,
+                    kind,
+                    ts_spelling(value)
                 )?;
             }
 
@@ -290,7 +293,7 @@ export type Token =
                     Symbol::Epsilon => continue,
                     Symbol::Eof => "EOF",
                 };
-                writeln!(w, r#""{}": {}"#, name, idx)?;
+                writeln!(w, r#""{}": {}"#, ts_spelling(name), idx)?;
             }
             w.write_str("\n}\n")?;
             Ok(())
@@ -498,7 +501,9 @@ export type Token =
                         ));
                         cond_stack.push(format!(
                             r#"__{}['token']['value'] extends infer {} extends "{}""#,
-                            named_sym.name, named_sym.name, str_lit,
+                            named_sym.name,
+                            named_sym.name,
+                            ts_spelling(str_lit),
                         ));
                         else_stack.push(format!(
                             r#"`error: not a token (pos \`{}\`, Action{})`"#,
@@ -567,7 +572,7 @@ export type Token =
                     Ok(true)
                 }
                 ActionImplParam::StrLit(lit) if !is_top => {
-                    write!(w, "\"{}\"", lit)?;
+                    write!(w, "\"{}\"", ts_spelling(lit))?;
                     Ok(true)
                 }
                 ActionImplParam::Regex(_r) if !is_top => {
-- 
2.43.0


From d076c9b6ead32c7503767994a5152f8f64037256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 16/16] fix: a symbol named newStack, or like another one with
 two underscores, was taken for the generated name in its action

---
 src/codegen/parse_gen.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index 7afa469..518b657 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -387,7 +387,7 @@ export type Token =
                 "{{ kind: '{}', value: {} }},",
                 self.production_name, self.action_impl.code
             )?;
-            buf.push_str("...newStack]");
+            buf.push_str("...newStack$]");
 
             Ok(buf)
         }
@@ -403,7 +403,7 @@ export type Token =
             write_condition(
                 w,
                 |w| {
-                    write!(w, "U.PopNStackWithValue<symbolStack, {}> extends [infer newStack, infer poppedValues]", self.pop_amount)
+                    write!(w, "U.PopNStackWithValue<symbolStack, {}> extends [infer newStack$, infer poppedValues]", self.pop_amount)
                 },
                 |w| {
                     // w.write_str("symbolStack")?;
@@ -431,7 +431,7 @@ export type Token =
                     for sym in &self.action_impl.inputs {
                         match sym {
                             ActionImplParam::Named(NamedActionImplParam { name, .. }) => {
-                                write!(w, "infer __{},", name.as_ref())?
+                                write!(w, "infer ${},", name.as_ref())?
                             }
                             _ => {
                                 write!(w, "infer var{},", i)?;
@@ -445,7 +445,7 @@ export type Token =
                 |w| {
                     write_condition(
                         w,
-                        |w| w.write_str("newStack extends type_defs.Symbol[]"),
+                        |w| w.write_str("newStack$ extends type_defs.Symbol[]"),
                         |w| self.validate_params(w, call_impl.clone()),
                         |w| {
                             write!(
@@ -485,7 +485,7 @@ export type Token =
                 match named_sym.param {
                     ActionImplParam::NonTerminal(non_terminal) => {
                         cond_stack.push(format!(
-                            "__{} extends {{ kind : \"{}\", value: infer {} extends {} }}",
+                            "${} extends {{ kind : \"{}\", value: infer {} extends {} }}",
                             named_sym.name, non_terminal, named_sym.name, non_terminal
                         ));
 
@@ -496,11 +496,11 @@ export type Token =
                     }
                     ActionImplParam::StrLit(str_lit) => {
                         cond_stack.push(format!(
-                            r#"__{} extends {{ kind: "token", token: L.Token }}"#,
+                            r#"${} extends {{ kind: "token", token: L.Token }}"#,
                             named_sym.name
                         ));
                         cond_stack.push(format!(
-                            r#"__{}['token']['value'] extends infer {} extends "{}""#,
+                            r#"${}['token']['value'] extends infer {} extends "{}""#,
                             named_sym.name,
                             named_sym.name,
                             ts_spelling(str_lit),
@@ -516,11 +516,11 @@ export type Token =
                     }
                     ActionImplParam::Regex(_) => {
                         cond_stack.push(format!(
-                            r#"__{} extends {{ kind: "token", token: L.Token }}"#,
+                            r#"${} extends {{ kind: "token", token: L.Token }}"#,
                             named_sym.name
                         ));
                         cond_stack.push(format!(
-                            "__{}['token']['value'] extends infer {} extends string",
+                            "${}['token']['value'] extends infer {} extends string",
                             named_sym.name, named_sym.name
                         ));
                         else_stack.push(format!(
-- 
2.43.0

