From c0bdd5b311fb04b676b5b5caa35e63d09995175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:11 +0000
Subject: [PATCH 01/16] fix: limit hexadecimal escapes to the number of digits
 they are made of

\xHH and \uHHHH took every hexadecimal digit that followed, so \x41B was
rejected and \u00411 named a different character. \u{...} with many digits
wrapped around to an unrelated character.
---
 pango-lexer/src/regex/tokenizer.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index aab53fd..bdf0c89 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -310,11 +310,11 @@ impl<'a> Tokenizer<'a> {
 
                 match ch {
                     '{' => {
-                        // Take the next four to five characters, interpret them as
+                        // Take the next four to six characters, interpret them as
                         // hexadecimal and return the unicode character.
 
                         let (digit_amount, character_code) =
-                            self.take_next_hexadecimals_and_convert_to_u32(5, None)?;
+                            self.take_next_hexadecimals_and_convert_to_u32(6, None)?;
 
                         if digit_amount < 4 {
                             return None;
@@ -338,9 +338,13 @@ impl<'a> Tokenizer<'a> {
                         let hex1 = ch.to_digit(16)?;
 
                         // Note: The first character has already been consumed.
-                        let (_, character_code) =
+                        let (digit_amount, character_code) =
                             self.take_next_hexadecimals_and_convert_to_u32(4, Some(hex1))?;
 
+                        if digit_amount != 4 {
+                            return None;
+                        }
+
                         char::from_u32(character_code)
                     }
                 }
@@ -351,8 +355,8 @@ impl<'a> Tokenizer<'a> {
     }
 
     /// Returns the count of digits and converts them to [`u32`] including the
-    /// starting digit if present. Takes all hexadecimals it can take.
-    /// It only returns `Some` when the amount was the expected amount.
+    /// starting digit if present. Takes all hexadecimals it can take, up to
+    /// `max_digits` (including the starting digit).
     fn take_next_hexadecimals_and_convert_to_u32(
         &mut self,
         max_digits: usize,
@@ -374,6 +378,7 @@ impl<'a> Tokenizer<'a> {
         self.iter
             .by_ref()
             .cautious_map_while(|(_, ch)| ch.to_digit(16))
+            .take(max_digits - digit_count as usize)
             .fold(Some((digit_count, start)), |acc, d| {
                 acc.map(|(digit_count, n)| (digit_count + 1, (n << 4) + d))
             })
-- 
2.43.0


From 63a5a22dac253253a05a6a0cb0224c5ed3a797fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:28 +0000
Subject: [PATCH 02/16] fix: reject quantifier counts that do not fit in 32
 bits

Adding the last digit could overflow, so a{4294967296} panicked (or wrapped
around to zero in release builds) instead of being reported as invalid.
---
 pango-lexer/src/regex/tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index bdf0c89..841b8ca 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -389,7 +389,9 @@ impl<'a> Tokenizer<'a> {
     fn take_next_decimals_and_convert_to_u32(&mut self, start: Option<u32>) -> Option<u32> {
         (&mut self.iter)
             .cautious_map_while(|(_, ch)| ch.to_digit(10))
-            .fold(start.or(Some(0)), |acc, d| Some(acc?.checked_mul(10)? + d))
+            .fold(start.or(Some(0)), |acc, d| {
+                acc?.checked_mul(10)?.checked_add(d)
+            })
     }
 
     /// Returns the end position of the current token.
-- 
2.43.0


From 149498c95971d4e9ca0188528567c3d0aab0a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:28 +0000
Subject: [PATCH 03/16] fix: report empty alternatives and groups as parse
 errors

Patterns such as |a, (|a) and () produced an empty concatenation, which
made the nfa compiler panic.
---
 pango-lexer/src/regex/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pango-lexer/src/regex/parser.rs b/pango-lexer/src/regex/parser.rs
index 05eb250..eee50c9 100644
--- a/pango-lexer/src/regex/parser.rs
+++ b/pango-lexer/src/regex/parser.rs
@@ -154,6 +154,13 @@ impl<'a> Parser<'a> {
             literals.push(self.sub_expression_item()?);
         }
 
+        if literals.is_empty() {
+            return Err(W(vec![ParseError {
+                kind: ParseErrorKind::SubExpression,
+                pos: self.get_current_token_position(),
+            }]));
+        }
+
         Ok(literals)
     }
 
-- 
2.43.0


From 32f4c27e86f2ac7e2d81dd17fc1e2f80eed9b039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:49 +0000
Subject: [PATCH 04/16] fix: reject patterns with an unmatched right
 parenthesis

The parser stopped at the parenthesis and silently ignored the rest of the
pattern, so a)b was accepted and matched only a.
---
 pango-lexer/src/regex/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pango-lexer/src/regex/parser.rs b/pango-lexer/src/regex/parser.rs
index eee50c9..51eda65 100644
--- a/pango-lexer/src/regex/parser.rs
+++ b/pango-lexer/src/regex/parser.rs
@@ -101,6 +101,11 @@ impl<'a> Parser<'a> {
         }
 
         match self.expression() {
+            // an expression only stops before the end at an unmatched RIGHT_PAREN
+            Ok(_) if self.tokens.peek().is_some() => Err(W(vec![ParseError {
+                kind: ParseErrorKind::LeftParan,
+                pos: self.get_current_token_position(),
+            }])),
             Ok(expr) => Ok(Ast(expr)),
             Err(mut errs) => {
                 self.errors.append(&mut errs.0);
-- 
2.43.0


From 707ed29c0f1cb87a7abcd3d9c2a630ff8a844395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:08 +0000
Subject: [PATCH 05/16] fix: count the states passed before the first character

The simulator started from a closure that never counted visits, so the first
round through a quantified group was missed whenever it began with another
quantifier: (a*b){1} did not match b.
---
 pango-lexer/src/fsm/nfa/model.rs | 46 +-------------------------------
 pango-lexer/src/fsm/nfa/sim.rs   | 14 +++++-----
 2 files changed, 9 insertions(+), 51 deletions(-)

diff --git a/pango-lexer/src/fsm/nfa/model.rs b/pango-lexer/src/fsm/nfa/model.rs
index f0bf32b..6e37861 100644
--- a/pango-lexer/src/fsm/nfa/model.rs
+++ b/pango-lexer/src/fsm/nfa/model.rs
@@ -1,6 +1,6 @@
 use super::StateId;
 use crate::regex::{ast, tokenizer::QuantifierKind};
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 // TODO: Clean up expects and panics to be `Option` and `Result` types.
 
@@ -76,50 +76,6 @@ impl Nfa {
     pub(super) fn get_final_states(&self) -> impl Iterator<Item = &State> + '_ {
         self.states.iter().filter(|s| s.fin)
     }
-
-    /// Returns an iterator over references to all states in the static epsilon
-    /// closure of the given state.
-    ///
-    /// This implementation of the NFA uses quantified transitions which can
-    /// only be taken when the state has been visited 'x' amount of times.
-    /// This is useful to prevent the exponential growth of the NFA when
-    /// compiling complex regex quantifiers. However, this means that state
-    /// counting has to be done at 'run-time' of the NFA. Information which is
-    /// not known to the [`NfaModel`](self::Nfa). Instaid a state is always
-    /// assumed to be visited 0 times, when trying quantified transitions.
-    pub(super) fn eps_closure(&self, state_id: StateId) -> impl Iterator<Item = StateId> {
-        let mut not_visited = VecDeque::from([state_id]);
-        let mut result = BTreeSet::from([state_id]);
-
-        while let Some(state_id) = not_visited.pop_front() {
-            let State { transitions, .. } = self.get_state(state_id);
-
-            let new_state_ids = transitions
-                .iter()
-                .filter_map(|(input, states)| -> Option<Box<dyn Iterator<Item = _>>> {
-                    match input {
-                        Input::Literal(_) => None,
-                        Input::Eps => Some(Box::new(states.iter())),
-                        Input::Quantified(quantifier) => {
-                            if quantifier.is_satisfied(0) {
-                                Some(Box::new(states.iter()))
-                            } else {
-                                None
-                            }
-                        }
-                    }
-                })
-                .flatten();
-
-            for state_id in new_state_ids {
-                if result.insert(*state_id) {
-                    not_visited.push_back(*state_id)
-                }
-            }
-        }
-
-        result.into_iter()
-    }
 }
 
 impl Input {
diff --git a/pango-lexer/src/fsm/nfa/sim.rs b/pango-lexer/src/fsm/nfa/sim.rs
index dd08984..81e9d67 100644
--- a/pango-lexer/src/fsm/nfa/sim.rs
+++ b/pango-lexer/src/fsm/nfa/sim.rs
@@ -58,12 +58,14 @@ impl Run {
 impl<'a> NfaSimulator<'a> {
     /// Creates a new [`NfaSimulator`].
     fn new(nfa: Cow<'a, Nfa>) -> Self {
-        let runs = nfa
-            .eps_closure(nfa.start_state)
-            .map(Run::new)
-            .collect::<Vec<_>>();
-
-        Self { nfa, runs }
+        let start = Run::new(nfa.start_state);
+        let mut sim = Self {
+            nfa,
+            runs: Vec::new(),
+        };
+        sim.runs = sim.eps_closure(start).collect();
+
+        sim
     }
 
     /// Returns an iterator over the runtime epsilon closure. This is an epsilon
-- 
2.43.0


From 925aca2d5ba7bfec2fe3e396e32f6b42d1d45b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:38 +0000
Subject: [PATCH 06/16] fix: keep the visit counters of the simulator bounded

Every pass through a quantified group that consumes nothing raised a counter
and thereby produced a new run, so (a*)* and similar patterns made the
epsilon closure run forever. Counters now stop at the last value that matters
to the quantifier.
---
 pango-lexer/src/fsm/nfa/model.rs   | 12 +++++++++
 pango-lexer/src/fsm/nfa/sim.rs     | 41 ++++++++++++++++++++++--------
 pango-lexer/src/regex/tokenizer.rs | 13 ++++++++++
 3 files changed, 55 insertions(+), 11 deletions(-)

diff --git a/pango-lexer/src/fsm/nfa/model.rs b/pango-lexer/src/fsm/nfa/model.rs
index 6e37861..88ef82f 100644
--- a/pango-lexer/src/fsm/nfa/model.rs
+++ b/pango-lexer/src/fsm/nfa/model.rs
@@ -105,6 +105,18 @@ impl State {
     fn with_id(id: StateId, fin: bool) -> Self {
         Self::new(id, fin, Transitions::new())
     }
+
+    /// Visit count from which on the quantified transitions of this state no
+    /// longer change, or `None` when there are no such transitions.
+    pub(super) fn count_limit(&self) -> Option<usize> {
+        self.transitions
+            .keys()
+            .filter_map(|input| match input {
+                Input::Quantified(quantifier) => Some(quantifier.count_limit()),
+                _ => None,
+            })
+            .max()
+    }
 }
 
 /// Builder struct for the [`Nfa`].
diff --git a/pango-lexer/src/fsm/nfa/sim.rs b/pango-lexer/src/fsm/nfa/sim.rs
index 81e9d67..7b689c8 100644
--- a/pango-lexer/src/fsm/nfa/sim.rs
+++ b/pango-lexer/src/fsm/nfa/sim.rs
@@ -41,13 +41,24 @@ impl Run {
 
     /// Updates the [`Run`] to the new state and updates the needed state
     /// counters.
-    fn take_transition(mut self, new_state_id: StateId, quantified: bool) -> Self {
-        let count = self.state_counters.entry(self.state_id).or_insert(0);
-        if quantified {
-            // Reset the state count if quantified transition is used
-            *count = 0;
-        } else {
-            *count += 1;
+    ///
+    /// Only states with a quantified transition are counted, and only up to
+    /// their `count_limit`. Otherwise a loop that does not consume any input
+    /// would lead to infinitely many different runs.
+    fn take_transition(
+        mut self,
+        new_state_id: StateId,
+        quantified: bool,
+        count_limit: Option<usize>,
+    ) -> Self {
+        if let Some(count_limit) = count_limit {
+            let count = self.state_counters.entry(self.state_id).or_insert(0);
+            if quantified {
+                // Reset the state count if quantified transition is used
+                *count = 0;
+            } else if *count < count_limit {
+                *count += 1;
+            }
         }
         self.state_id = new_state_id;
 
@@ -81,7 +92,8 @@ impl<'a> NfaSimulator<'a> {
                 state_counters,
             } = &run;
 
-            let State { transitions, .. } = self.nfa.get_state(*state_id);
+            let state @ State { transitions, .. } = self.nfa.get_state(*state_id);
+            let count_limit = state.count_limit();
 
             let transitions_taken = transitions
                 .iter()
@@ -103,7 +115,10 @@ impl<'a> NfaSimulator<'a> {
 
             let new_runs = transitions_taken
                 .into_iter()
-                .map(|(new_state, quantified)| run.clone().take_transition(*new_state, quantified));
+                .map(|(new_state, quantified)| {
+                    run.clone()
+                        .take_transition(*new_state, quantified, count_limit)
+                });
 
             for new_run in new_runs {
                 if result.insert(new_run.clone()) {
@@ -139,7 +154,8 @@ impl Simulate for NfaSimulator<'_> {
         let mut updated_runs = Vec::new();
 
         for run @ Run { state_id, .. } in self.runs.iter() {
-            let State { transitions, .. } = self.nfa.get_state(*state_id);
+            let state @ State { transitions, .. } = self.nfa.get_state(*state_id);
+            let count_limit = state.count_limit();
 
             // Check for every transition if the input can make that transition.
 
@@ -163,7 +179,10 @@ impl Simulate for NfaSimulator<'_> {
 
             let new_runs = new_state_ids
                 .into_iter()
-                .map(|new_state_id| run.clone().take_transition(*new_state_id, false))
+                .map(|new_state_id| {
+                    run.clone()
+                        .take_transition(*new_state_id, false, count_limit)
+                })
                 .flat_map(|new_run| self.eps_closure(new_run));
 
             updated_runs.extend(new_runs);
diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index 841b8ca..365444d 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -420,6 +420,19 @@ impl QuantifierKind {
             }
         }
     }
+
+    /// Smallest count that can stand in for every higher count.
+    pub(crate) fn count_limit(&self) -> usize {
+        match self {
+            QuantifierKind::Asterisk => 0,
+            QuantifierKind::Plus => 1,
+            QuantifierKind::QuestionMark => 2,
+            QuantifierKind::Range(QuantifierRangeKind::Min(min)) => *min as usize,
+            QuantifierKind::Range(
+                QuantifierRangeKind::Max(max) | QuantifierRangeKind::Range(_, max),
+            ) => *max as usize + 1,
+        }
+    }
 }
 
 impl ClassKind {
-- 
2.43.0


From 2833a3d125e107662dfd7f76880c17cb03a99010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:48 +0000
Subject: [PATCH 07/16] fix: do not keep the same simulator run more than once

Runs that arrive at the same state along different paths were kept separately,
so the amount of runs doubled with every character for patterns with
overlapping alternatives such as (a|[a-z])*.
---
 pango-lexer/src/fsm/nfa/sim.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango-lexer/src/fsm/nfa/sim.rs b/pango-lexer/src/fsm/nfa/sim.rs
index 7b689c8..410a2e6 100644
--- a/pango-lexer/src/fsm/nfa/sim.rs
+++ b/pango-lexer/src/fsm/nfa/sim.rs
@@ -151,7 +151,7 @@ impl Simulate for NfaSimulator<'_> {
     }
 
     fn feed(&mut self, input: char) -> bool {
-        let mut updated_runs = Vec::new();
+        let mut updated_runs = HashSet::new();
 
         for run @ Run { state_id, .. } in self.runs.iter() {
             let state @ State { transitions, .. } = self.nfa.get_state(*state_id);
@@ -188,7 +188,7 @@ impl Simulate for NfaSimulator<'_> {
             updated_runs.extend(new_runs);
         }
 
-        self.runs = updated_runs;
+        self.runs = updated_runs.into_iter().collect();
 
         #[cfg(debug_assertions)]
         {
-- 
2.43.0


From 58f9b5805d052495e8512db16e22d6e9f6a1ac1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:09 +0000
Subject: [PATCH 08/16] fix: keep characters that were read ahead but not used
 yet

Taking a token replaced the characters left over from an earlier lookahead
with the current suffix. Characters were lost when a token ended before all
of that lookahead was read again.
---
 pango-lexer/src/lexer/input.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pango-lexer/src/lexer/input.rs b/pango-lexer/src/lexer/input.rs
index 668df14..583131b 100644
--- a/pango-lexer/src/lexer/input.rs
+++ b/pango-lexer/src/lexer/input.rs
@@ -74,6 +74,8 @@ impl<'a> InputIter<'a> {
     /// Takes the currently built/accepted token from the iterator and moves the
     /// not accepted part of the input so it is used for the next token.
     pub(super) fn consume_token(&mut self) -> InputIterToken {
+        // Characters left over from an earlier suffix come after the current one.
+        self.token_suffix.extend(self.prev_characters_iter.by_ref());
         self.prev_characters_iter = std::mem::take(&mut self.token_suffix).into_iter();
         let new_token = InputIterToken {
             // OPTIMIZATION: Assume that the string length of the new token will at least be half
-- 
2.43.0


From 5fa03a8a6e7ad833d151e5e80dd58bb8e1fe2a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:10 +0000
Subject: [PATCH 09/16] fix: return the longest match when the input ends early

If the input ended while a longer token was being tried, the shorter token
that had already been accepted was dropped: a|abc on ab returned nothing.
---
 pango-lexer/src/lexer/mod.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pango-lexer/src/lexer/mod.rs b/pango-lexer/src/lexer/mod.rs
index 110072f..f4b8c61 100644
--- a/pango-lexer/src/lexer/mod.rs
+++ b/pango-lexer/src/lexer/mod.rs
@@ -110,13 +110,8 @@ where
             }
         }
 
-        if sim.is_accepting() {
-            token_kind.map(|token_kind| {
-                Token::from_input_iter_token(self.iter.consume_token(), token_kind)
-            })
-        } else {
-            None
-        }
+        token_kind
+            .map(|token_kind| Token::from_input_iter_token(self.iter.consume_token(), token_kind))
     }
 }
 
-- 
2.43.0


From 643ad110f6c2298ef0f7eafde0a6f8294e0bb675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:11 +0000
Subject: [PATCH 10/16] fix: do not skip input that does not match any token

The lexer ends when no token matches, but the characters it had tried stayed
in the suffix. Calling next again then returned a token made of the skipped
characters and whatever matched after them.
---
 pango-lexer/src/lexer/input.rs | 11 ++++++++---
 pango-lexer/src/lexer/mod.rs   |  9 +++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/pango-lexer/src/lexer/input.rs b/pango-lexer/src/lexer/input.rs
index 583131b..69c281e 100644
--- a/pango-lexer/src/lexer/input.rs
+++ b/pango-lexer/src/lexer/input.rs
@@ -74,9 +74,7 @@ impl<'a> InputIter<'a> {
     /// Takes the currently built/accepted token from the iterator and moves the
     /// not accepted part of the input so it is used for the next token.
     pub(super) fn consume_token(&mut self) -> InputIterToken {
-        // Characters left over from an earlier suffix come after the current one.
-        self.token_suffix.extend(self.prev_characters_iter.by_ref());
-        self.prev_characters_iter = std::mem::take(&mut self.token_suffix).into_iter();
+        self.reject_suffix();
         let new_token = InputIterToken {
             // OPTIMIZATION: Assume that the string length of the new token will at least be half
             // of the previous token.
@@ -88,6 +86,13 @@ impl<'a> InputIter<'a> {
         std::mem::replace(&mut self.current_token, new_token)
     }
 
+    /// Moves the not accepted part of the input back, so that it is read again.
+    pub(super) fn reject_suffix(&mut self) {
+        // Characters left over from an earlier suffix come after the current one.
+        self.token_suffix.extend(self.prev_characters_iter.by_ref());
+        self.prev_characters_iter = std::mem::take(&mut self.token_suffix).into_iter();
+    }
+
     /// Returns a read-only reference to the [`InputIterToken`] being built.
     pub(super) fn get_token(&self) -> &InputIterToken {
         &self.current_token
diff --git a/pango-lexer/src/lexer/mod.rs b/pango-lexer/src/lexer/mod.rs
index f4b8c61..b88811e 100644
--- a/pango-lexer/src/lexer/mod.rs
+++ b/pango-lexer/src/lexer/mod.rs
@@ -72,10 +72,7 @@ where
         while let Some(ch) = self.iter.next() {
             if !sim.can_feed(ch) {
                 // the current token is the longest token we can 'munch'
-
-                return token_kind.map(|token_kind| {
-                    Token::from_input_iter_token(self.iter.consume_token(), token_kind)
-                });
+                break;
             }
 
             if sim.feed(ch) {
@@ -110,6 +107,10 @@ where
             }
         }
 
+        if token_kind.is_none() {
+            self.iter.reject_suffix();
+        }
+
         token_kind
             .map(|token_kind| Token::from_input_iter_token(self.iter.consume_token(), token_kind))
     }
-- 
2.43.0


From 7abca4daec8db337df80885255aea93b413670af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:30 +0000
Subject: [PATCH 11/16] fix: only report a conflict for different actions

Two items of a state that read the same terminal lead to the same shift, which
was reported as a conflict: S -> a b | a c was rejected as not being SLR.
---
 pango-parser/src/parser/table.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index 0b14ae4..15899cf 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -135,6 +135,7 @@ where
 
 impl<V, T> ParseTable<V, T>
 where
+    V: Copy + Eq,
     T: TerminalEq + TerminalHash,
 {
     fn insert_action(
@@ -150,16 +151,12 @@ where
         let state = table
             .get_mut(state)
             .expect("state should exist as the table has just been resized");
-        let mut occupied = true;
-        let _entry = state.entry(terminal).or_insert_with(|| {
-            occupied = false;
-            action
-        });
+        let entry = state.entry(terminal).or_insert(action);
 
         // TODO: Return type of conflict
-        match occupied {
-            true => Err(()),
-            false => Ok(()),
+        match *entry == action {
+            true => Ok(()),
+            false => Err(()),
         }
     }
 }
-- 
2.43.0


From d39a69213165f9a1a92d2af66f16d2eba1882245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:31 +0000
Subject: [PATCH 12/16] fix: do not take epsilons from the parse stack when
 reducing

Reducing A -> epsilon removed the node before it from the stack, although
nothing is shifted for an epsilon.
---
 pango-parser/src/parser/table.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index 15899cf..756fe57 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -80,6 +80,14 @@ where
                     }
                     None => {
                         // body of the form `S -> w •`
+
+                        // epsilons are never shifted, so they can not be reduced either
+                        let amount = body
+                            .get_body()
+                            .iter()
+                            .filter(|s| !matches!(s, Symbol::Epsilon))
+                            .count();
+
                         let Some(follow) = follow_set.get(&head) else {
                             continue;
                         };
@@ -99,7 +107,7 @@ where
                                 t,
                                 ActionKind::Reduce {
                                     variable: head,
-                                    amount: body.get_body().len(),
+                                    amount,
                                 },
                             )?;
                         }
@@ -113,7 +121,7 @@ where
                                 Terminal::Eof,
                                 ActionKind::Accept {
                                     variable: head,
-                                    amount: body.get_body().len(),
+                                    amount,
                                 },
                             )?;
                         }
-- 
2.43.0


From 9758ef8892fc4d85313528ebbb1672c0479b40f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:09 +0000
Subject: [PATCH 13/16] fix: take the end of the input into account when
 building the table

Only the start variable had an action at the end of the input, so S -> A,
A -> a did not parse a. That action also accepted right away even if the start
variable was nested in an unfinished rule, so S -> ( S ) | x accepted (x.
Variables that can end the input are now reduced there, and the input is
accepted when all of it has been reduced to the start variable.
---
 pango-parser/src/grammar.rs      | 28 ++++++++++++++++++++++++++++
 pango-parser/src/parser/slr.rs   | 21 +++++++--------------
 pango-parser/src/parser/table.rs | 27 +++++++++++++++++----------
 3 files changed, 52 insertions(+), 24 deletions(-)

diff --git a/pango-parser/src/grammar.rs b/pango-parser/src/grammar.rs
index 5f877a2..3862e31 100644
--- a/pango-parser/src/grammar.rs
+++ b/pango-parser/src/grammar.rs
@@ -373,6 +373,34 @@ where
 
         result
     }
+
+    /// Returns the variables that can be followed by the end of the input.
+    pub(super) fn end_variables(&self) -> HashSet<V> {
+        let mut result = HashSet::from([self.start_variable]);
+        let mut pending = VecDeque::from([self.start_variable]);
+
+        while let Some(head) = pending.pop_front() {
+            let bodies = self.get_rule_bodies(head).expect("variable does not exist");
+
+            for body in bodies {
+                for (i, symbol) in body.iter().enumerate() {
+                    let Symbol::Variable(variable) = symbol else {
+                        continue;
+                    };
+
+                    let rest = &body[i + 1..];
+                    let last =
+                        rest.is_empty() || self.first_body(None, rest).contains(&Symbol::Epsilon);
+
+                    if last && result.insert(*variable) {
+                        pending.push_back(*variable);
+                    }
+                }
+            }
+        }
+
+        result
+    }
 }
 
 impl<V, T> Grammar<V, T>
diff --git a/pango-parser/src/parser/slr.rs b/pango-parser/src/parser/slr.rs
index c828220..632e7b7 100644
--- a/pango-parser/src/parser/slr.rs
+++ b/pango-parser/src/parser/slr.rs
@@ -148,22 +148,15 @@ where
                     state: *new_state,
                 }
             }
-            ActionKind::Accept { variable, amount } => {
-                let children = stack
-                    .drain((stack.len() - amount)..)
-                    .map(|parse_node| parse_node.node)
-                    .rev()
-                    .collect();
+            ActionKind::Accept => {
+                // the state to accept in can also be reached while the start variable is only
+                // a part of what has been read
+                if stack.len() != 2 {
+                    return Err(());
+                }
 
                 accept = true;
-                ParseNode {
-                    node: Node {
-                        symbol: Symbol::Variable(*variable),
-                        children,
-                    },
-                    // State does not matter here as the action is to accept
-                    state: StateId::default(),
-                }
+                stack.pop().expect("the start variable is on the stack")
             }
         };
 
diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index 756fe57..87feefe 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -20,7 +20,7 @@ type GotoTable<V> = Vec<HashMap<V, StateId>>;
 pub enum ActionKind<V> {
     Shift { dest_state: StateId },
     Reduce { variable: V, amount: usize },
-    Accept { variable: V, amount: usize },
+    Accept,
 }
 
 pub(super) enum Terminal<T> {
@@ -48,6 +48,7 @@ where
         let grammar = cfsm.get_grammar();
 
         let follow_set = grammar.follow_set();
+        let end_variables = grammar.end_variables();
 
         let (mut action, mut goto) = (ActionTable::new(), GotoTable::new());
 
@@ -88,11 +89,7 @@ where
                             .filter(|s| !matches!(s, Symbol::Epsilon))
                             .count();
 
-                        let Some(follow) = follow_set.get(&head) else {
-                            continue;
-                        };
-
-                        for s in follow.iter() {
+                        for s in follow_set.get(&head).into_iter().flatten() {
                             let t = match s {
                                 Symbol::Terminal(t) => Terminal::T(t.into()),
                                 Symbol::Variable(_) => {
@@ -112,14 +109,12 @@ where
                             )?;
                         }
 
-                        if head == grammar.get_start_variable() {
-                            // reduce once to the start variable on a lookahead of eof, then
-                            // accept
+                        if end_variables.contains(&head) {
                             Self::insert_action(
                                 &mut action,
                                 *state_id,
                                 Terminal::Eof,
-                                ActionKind::Accept {
+                                ActionKind::Reduce {
                                     variable: head,
                                     amount,
                                 },
@@ -133,6 +128,18 @@ where
             }
         }
 
+        // accept on eof once everything has been reduced to the start variable
+        let (start_state, start_variable) = (StateId::default(), grammar.get_start_variable());
+        let accept_state = match goto.get(start_state).and_then(|g| g.get(&start_variable)) {
+            Some(accept_state) => *accept_state,
+            None => {
+                let accept_state = cfsm.iter().count();
+                Self::insert_goto(&mut goto, start_state, start_variable, accept_state);
+                accept_state
+            }
+        };
+        Self::insert_action(&mut action, accept_state, Terminal::Eof, ActionKind::Accept)?;
+
         Ok(Self {
             action,
             goto,
-- 
2.43.0


From a095756e00cd9c0a4d6db078b0cb4a5d1ef21850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:10 +0000
Subject: [PATCH 14/16] fix: return an error in states without any action

The action table ends at the last state that has an action. Reaching one of
the states after that panicked instead of rejecting the input.
---
 pango-parser/src/parser/slr.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pango-parser/src/parser/slr.rs b/pango-parser/src/parser/slr.rs
index 632e7b7..c8f183c 100644
--- a/pango-parser/src/parser/slr.rs
+++ b/pango-parser/src/parser/slr.rs
@@ -100,13 +100,13 @@ where
             None => Terminal::Eof,
         };
 
-        let action = self
+        // the table has no row for the last states if there is nothing to do in them
+        let Some(action_kind) = self
             .table
             .action
             .get(current_state)
-            .expect("state does not exist in the action table");
-
-        let Some(action_kind) = action.get(&terminal) else {
+            .and_then(|action| action.get(&terminal))
+        else {
             return Err(());
         };
 
-- 
2.43.0


From ac9351c2ab4666a22c2029745264de78a9bf4e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:11 +0000
Subject: [PATCH 15/16] fix: do not create multiple states for the same item
 set

A state was only found again after it had been processed. Until then every
transition to it created another copy, and every copy created its own copies,
which is exponential for some grammars.
---
 pango-parser/src/cfsm/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pango-parser/src/cfsm/mod.rs b/pango-parser/src/cfsm/mod.rs
index 66bd8da..9a8c5db 100644
--- a/pango-parser/src/cfsm/mod.rs
+++ b/pango-parser/src/cfsm/mod.rs
@@ -76,12 +76,12 @@ where
             // try all symbols with a bullet reading them
 
             let State {
-                ref item_set,
+                id: current_id,
+                item_set: ref current_item_set,
                 ref mut transitions,
-                ..
             } = state;
 
-            for (symbol, item_set) in item_set.iter_by_cursor_symbol() {
+            for (symbol, item_set) in current_item_set.iter_by_cursor_symbol() {
                 // advance the items which read the same symbol
 
                 let new_item_set = item_set
@@ -99,12 +99,15 @@ where
                 let item_set = ItemSet::from((new_item_set, builder.get_grammar()));
 
                 let new_state_id = {
+                    // the state can already exist without being added to the builder
                     match builder
                         .get_states_mut()
                         .iter()
+                        .chain(pending_states.iter())
                         .find(|s| s.has_item_set(&item_set))
                     {
                         Some(State { id, .. }) => *id,
+                        None if *current_item_set == item_set => current_id,
                         None => {
                             let state = State::new(state_id_generator.next(), item_set);
                             let state_id = state.id;
-- 
2.43.0


From d4a8a6ad3fcd5f594f86e929eb97fa57939869d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:27 +0000
Subject: [PATCH 16/16] fix: reject input that can not be split into tokens

The lexer also ends when the remaining input does not match any token. The
parser took that for the end of the input and accepted what came before it.
---
 pango-lexer/src/lexer/input.rs | 5 +++++
 pango-lexer/src/lexer/mod.rs   | 7 +++++++
 pango-parser/src/parser/slr.rs | 5 +++++
 3 files changed, 17 insertions(+)

diff --git a/pango-lexer/src/lexer/input.rs b/pango-lexer/src/lexer/input.rs
index 69c281e..5fce6db 100644
--- a/pango-lexer/src/lexer/input.rs
+++ b/pango-lexer/src/lexer/input.rs
@@ -93,6 +93,11 @@ impl<'a> InputIter<'a> {
         self.prev_characters_iter = std::mem::take(&mut self.token_suffix).into_iter();
     }
 
+    /// Whether there are no more characters to read.
+    pub(super) fn is_empty(&self) -> bool {
+        self.prev_characters_iter.as_slice().is_empty() && self.iter.clone().next().is_none()
+    }
+
     /// Returns a read-only reference to the [`InputIterToken`] being built.
     pub(super) fn get_token(&self) -> &InputIterToken {
         &self.current_token
diff --git a/pango-lexer/src/lexer/mod.rs b/pango-lexer/src/lexer/mod.rs
index b88811e..3aeb56b 100644
--- a/pango-lexer/src/lexer/mod.rs
+++ b/pango-lexer/src/lexer/mod.rs
@@ -116,6 +116,13 @@ where
     }
 }
 
+impl<TokenKind, Fsm: Simulatable> Lexer<'_, TokenKind, Fsm> {
+    /// Whether all of the input has been returned as tokens.
+    pub fn is_finished(&self) -> bool {
+        self.iter.is_empty()
+    }
+}
+
 impl<TokenKind> Lexer<'_, TokenKind, Nfa> {
     /// Creates a `LexerGenerator`.
     pub fn builder() -> LexerGenerator<TokenKind> {
diff --git a/pango-parser/src/parser/slr.rs b/pango-parser/src/parser/slr.rs
index c8f183c..86c0795 100644
--- a/pango-parser/src/parser/slr.rs
+++ b/pango-parser/src/parser/slr.rs
@@ -70,6 +70,11 @@ where
             stack.push(parse_node);
         }
 
+        if !input.is_finished() {
+            // the lexer stopped because the remaining input is not a token
+            return Err(());
+        }
+
         // eof
         next_token = None;
         while let Ok((parse_node, accept)) =
-- 
2.43.0

