From fb23d5167a08b30d93eccefe6d5c129bd78dc485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:38 +0000
Subject: [PATCH 01/17] fix: FIRST set of a string looks past nullable symbols

---
 cfg-predict-sets/src/first.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cfg-predict-sets/src/first.rs b/cfg-predict-sets/src/first.rs
index d952190..c779c5c 100644
--- a/cfg-predict-sets/src/first.rs
+++ b/cfg-predict-sets/src/first.rs
@@ -49,26 +49,28 @@ impl FirstSets {
 
     /// Calculates a FIRST set for a string of symbols.
     pub fn first_set_for_string(&self, string: &[Symbol]) -> PerSymbolSetVal {
-        let mut result = vec![];
+        let mut list = vec![];
+        let mut has_none = true;
         for &sym in string {
             if self.terminal_set[sym] {
-                result.push(sym);
+                list.push(sym);
+                has_none = false;
                 break;
             } else {
                 let first_set = self
                     .map
                     .get(&sym)
                     .expect("FIRST set not found in PerSymbolSets");
-                result.clone_from(&first_set.list);
-                if !result.is_empty() {
+                list.extend(first_set.list.iter().copied());
+                if !first_set.has_none {
+                    has_none = false;
                     break;
                 }
             }
         }
-        PerSymbolSetVal {
-            has_none: result.is_empty(),
-            list: result,
-        }
+        list.sort_unstable();
+        list.dedup();
+        PerSymbolSetVal { has_none, list }
     }
 
     fn collect_from(&mut self, grammar: &Cfg) {
-- 
2.43.0


From b7b4a456a70584c12a173e0b1a2de34169ee26b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:38 +0000
Subject: [PATCH 02/17] fix: FOLLOW sets propagate the end of input

---
 cfg-predict-sets/src/follow.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfg-predict-sets/src/follow.rs b/cfg-predict-sets/src/follow.rs
index 76ed1eb..aa45168 100644
--- a/cfg-predict-sets/src/follow.rs
+++ b/cfg-predict-sets/src/follow.rs
@@ -57,6 +57,7 @@ impl FollowSets {
                         followed.extend(follow_set.iter().cloned());
                         followed.sort_unstable();
                         followed.dedup();
+                        followed.has_none |= follow_set.has_none;
                         changed |= prev_cardinality != followed.len();
 
                         let first_set = first_sets.get(&sym).unwrap();
-- 
2.43.0


From e67084a71a78444fa0758118d7d7c0164de2c287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:38 +0000
Subject: [PATCH 03/17] fix: cycle rewrite keeps roots pointing at the
 rewritten symbols

---
 cfg-classify/src/cyclical.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cfg-classify/src/cyclical.rs b/cfg-classify/src/cyclical.rs
index f4d7d16..5279bbb 100644
--- a/cfg-classify/src/cyclical.rs
+++ b/cfg-classify/src/cyclical.rs
@@ -4,7 +4,7 @@ use std::borrow::{Borrow, BorrowMut};
 use std::collections::BTreeMap;
 
 use cfg_grammar::{Cfg, CfgRule, SymbolBitSet};
-use cfg_symbol::SymbolSource;
+use cfg_symbol::{Symbol, SymbolSource};
 use cfg_symbol_bit_matrix::{CfgSymbolBitMatrixExt, UnitDerivationMatrix};
 
 /// Provides information about cycles among unit derivations in the grammar. There are two ways of
@@ -126,6 +126,16 @@ impl<G: BorrowMut<Cfg>> Cycles<G> {
             for rule in rewritten_rules {
                 self.grammar.borrow_mut().add_rule(rule);
             }
+            // The roots may be among the rewritten symbols.
+            let translate = |sym: Symbol| translation.get(&sym).copied().flatten().unwrap_or(sym);
+            let grammar = self.grammar.borrow_mut();
+            let roots: Vec<_> = grammar.roots().iter().copied().map(translate).collect();
+            grammar.set_roots(roots);
+            let mut wrapped_roots = grammar.wrapped_roots().to_vec();
+            for wrapped_root in &mut wrapped_roots {
+                wrapped_root.inner_root = translate(wrapped_root.inner_root);
+            }
+            grammar.set_wrapped_roots(&wrapped_roots[..]);
         }
     }
 }
-- 
2.43.0


From 784abfcfe4a447766dd9df120e1f0818658b6cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:38 +0000
Subject: [PATCH 04/17] fix: sequence rewrite does not overflow on bounds above
 2^31

---
 cfg-sequence/src/rewrite.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfg-sequence/src/rewrite.rs b/cfg-sequence/src/rewrite.rs
index c3cea3e..c47168e 100644
--- a/cfg-sequence/src/rewrite.rs
+++ b/cfg-sequence/src/rewrite.rs
@@ -181,7 +181,7 @@ impl<'a> SequencesToProductions<'a> {
             }
             (_, 1, Some(end)) => {
                 // end >= 3
-                let pow2 = end.next_power_of_two() / 2;
+                let pow2 = 1 << (end - 1).ilog2();
                 let (seq1, block, seq2) = (
                     sequence.range(1..=pow2),
                     sequence.range(pow2..=pow2),
@@ -204,7 +204,7 @@ impl<'a> SequencesToProductions<'a> {
                 // to do infinity
                 let (seq1, seq2) = if Some(start) == end {
                     // A "block"
-                    let pow2 = start.next_power_of_two() / 2;
+                    let pow2 = 1 << (start - 1).ilog2();
                     (
                         sequence.range(pow2..=pow2),
                         sequence.range(start - pow2..=start - pow2),
-- 
2.43.0


From dcad2eaba0cf659c04167164462f005f71b87274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:38 +0000
Subject: [PATCH 05/17] fix: binarized rule histories carry the original dot
 positions

---
 cfg-history/src/earley/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cfg-history/src/earley/mod.rs b/cfg-history/src/earley/mod.rs
index eb6bdf6..e0bca6e 100644
--- a/cfg-history/src/earley/mod.rs
+++ b/cfg-history/src/earley/mod.rs
@@ -221,19 +221,19 @@ impl History {
             [none; 3]
         } else {
             if is_top {
-                if full_len == 2 {
+                if full_len == 1 {
                     [self.at_dot(0), none, self.at_dot(1)]
-                } else if full_len >= 3 {
+                } else if full_len >= 2 {
                     [
                         self.at_dot(0),
-                        self.at_dot(full_len - 2),
                         self.at_dot(full_len - 1),
+                        self.at_dot(full_len),
                     ]
                 } else {
                     [self.at_dot(0), none, none]
                 }
             } else {
-                [none, self.at_dot(full_len - 2 - height as usize), none]
+                [none, self.at_dot(height as usize + 1), none]
             }
         };
 
-- 
2.43.0


From e89bdb8173e460c22b366313d3f09cbef0fa8605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:38 +0000
Subject: [PATCH 06/17] fix: SymbolBitSet::is_empty is true for sets without
 symbols

---
 cfg-grammar/src/symbol_bit_set.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfg-grammar/src/symbol_bit_set.rs b/cfg-grammar/src/symbol_bit_set.rs
index 0aaec73..067224d 100644
--- a/cfg-grammar/src/symbol_bit_set.rs
+++ b/cfg-grammar/src/symbol_bit_set.rs
@@ -175,9 +175,9 @@ impl SymbolBitSet {
         self.bit_vec.iter().all(|b| b)
     }
 
-    /// Not to be confused with `fn is_empty`.
+    /// Determines whether this set contains no symbols.
     pub fn is_empty(&self) -> bool {
-        self.bit_vec.iter().any(|b| b)
+        !self.bit_vec.iter().any(|b| b)
     }
 
     /// Reserves space for additional symbols.
-- 
2.43.0


From 3e7910d57ace6f2560cacadfeeb0ca7281244d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:38 +0000
Subject: [PATCH 07/17] fix: Cfg::equivalent compares rule counts and RHS
 lengths

---
 cfg-grammar/src/compare.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfg-grammar/src/compare.rs b/cfg-grammar/src/compare.rs
index aec4ee0..9a871e5 100644
--- a/cfg-grammar/src/compare.rs
+++ b/cfg-grammar/src/compare.rs
@@ -3,9 +3,9 @@ use crate::Cfg;
 impl Cfg {
     /// Compares the grammars. The symbol numeric values must match.
     pub fn equivalent(&self, other: &Cfg) -> bool {
-        let mut eq = true;
+        let mut eq = self.rules().count() == other.rules().count();
         for (i, j) in self.rules().zip(other.rules()) {
-            eq = eq && i.lhs == j.lhs && i.rhs.iter().zip(j.rhs.iter()).all(|(a, b)| *a == *b);
+            eq = eq && i.lhs == j.lhs && i.rhs == j.rhs;
         }
         eq
     }
-- 
2.43.0


From af2fe1a8aea30cbd84522d7d8ddf9b2f1f81465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:38 +0000
Subject: [PATCH 08/17] fix: backward distances are recorded at the dots they
 belong to

---
 cfg-predict-distance/src/lib.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/cfg-predict-distance/src/lib.rs b/cfg-predict-distance/src/lib.rs
index 7b9c76f..7a58010 100644
--- a/cfg-predict-distance/src/lib.rs
+++ b/cfg-predict-distance/src/lib.rs
@@ -162,11 +162,12 @@ impl<'a> MinimalDistance<'a> {
         direction: DistanceDirection,
     ) {
         if direction.includes_forward() {
-            let (min, _) = self.update_rule_distances(0, &rule.rhs[..dot_pos], rule_idx, false);
+            let (min, _) = self.update_rule_distances(0, &rule.rhs[..dot_pos], rule_idx, 0, false);
             set_min(&mut self.forward_distances.before[rule.lhs.usize()], min);
         }
         if direction.includes_backward() {
-            let (min, _) = self.update_rule_distances(0, &rule.rhs[dot_pos..], rule_idx, true);
+            let (min, _) =
+                self.update_rule_distances(0, &rule.rhs[dot_pos..], rule_idx, dot_pos, true);
             set_min(&mut self.backward_distances.before[rule.lhs.usize()], min);
         }
     }
@@ -180,38 +181,39 @@ impl<'a> MinimalDistance<'a> {
             for (idx, rule) in self.grammar.rules().enumerate() {
                 if let Some(distance) = self.forward_distances.after[rule.lhs.usize()] {
                     let (_, changed_now) =
-                        self.update_rule_distances(distance, &rule.rhs[..], idx, false);
+                        self.update_rule_distances(distance, &rule.rhs[..], idx, 0, false);
                     changed |= changed_now;
                 }
                 if let Some(distance) = self.backward_distances.after[rule.lhs.usize()] {
                     let (_, changed_now) =
-                        self.update_rule_distances(distance, &rule.rhs[..], idx, true);
+                        self.update_rule_distances(distance, &rule.rhs[..], idx, 0, true);
                     changed |= changed_now;
                 }
             }
         }
     }
 
-    // Update distances in a rule.
+    // Update distances in a rule. The given part of the RHS begins at dot `start`.
     fn update_rule_distances(
         &mut self,
         mut cur: u32,
         rhs: &[Symbol],
         idx: usize,
+        start: usize,
         reverse: bool,
     ) -> (u32, bool) {
         let last = if reverse {
             for (dot, &sym) in rhs.iter().enumerate() {
-                set_min(&mut self.distances[idx][dot], cur);
+                set_min(&mut self.distances[idx][start + dot], cur);
                 cur = self.update_sym_distance(cur, sym, true);
             }
-            rhs.len()
+            start + rhs.len()
         } else {
             for (dot, &sym) in rhs.iter().enumerate().rev() {
-                set_min(&mut self.distances[idx][dot + 1], cur);
+                set_min(&mut self.distances[idx][start + dot + 1], cur);
                 cur = self.update_sym_distance(cur, sym, false);
             }
-            0
+            start
         };
         let changed = set_min(&mut self.distances[idx][last], cur);
         (cur, changed)
-- 
2.43.0


From c9fc2d83751977186bd1c1ab74aaa455481628ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:20 +0000
Subject: [PATCH 09/17] fix: distance propagation goes on while any dot of a
 rule changes

---
 cfg-predict-distance/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cfg-predict-distance/src/lib.rs b/cfg-predict-distance/src/lib.rs
index 7a58010..f047627 100644
--- a/cfg-predict-distance/src/lib.rs
+++ b/cfg-predict-distance/src/lib.rs
@@ -202,20 +202,21 @@ impl<'a> MinimalDistance<'a> {
         start: usize,
         reverse: bool,
     ) -> (u32, bool) {
+        let mut changed = false;
         let last = if reverse {
             for (dot, &sym) in rhs.iter().enumerate() {
-                set_min(&mut self.distances[idx][start + dot], cur);
+                changed |= set_min(&mut self.distances[idx][start + dot], cur);
                 cur = self.update_sym_distance(cur, sym, true);
             }
             start + rhs.len()
         } else {
             for (dot, &sym) in rhs.iter().enumerate().rev() {
-                set_min(&mut self.distances[idx][start + dot + 1], cur);
+                changed |= set_min(&mut self.distances[idx][start + dot + 1], cur);
                 cur = self.update_sym_distance(cur, sym, false);
             }
             start
         };
-        let changed = set_min(&mut self.distances[idx][last], cur);
+        changed |= set_min(&mut self.distances[idx][last], cur);
         (cur, changed)
     }
 
-- 
2.43.0


From d195f7b1b160078d70c67cd3878c46fa9c989346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:38 +0000
Subject: [PATCH 10/17] fix: closure with values skips sums that do not fit the
 value type

---
 cfg-grammar/src/cfg.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cfg-grammar/src/cfg.rs b/cfg-grammar/src/cfg.rs
index 2da8cb6..461e0a4 100644
--- a/cfg-grammar/src/cfg.rs
+++ b/cfg-grammar/src/cfg.rs
@@ -604,10 +604,9 @@ impl Cfg {
                 .iter()
                 .map(|&rule_id| &self.rules[rule_id]);
             for rule in rules {
-                let maybe_work_value = rule
-                    .rhs
-                    .iter()
-                    .try_fold(0, |acc, elem| value[elem.usize()].map(|val| acc + val));
+                let maybe_work_value = rule.rhs.iter().try_fold(0u32, |acc, elem| {
+                    value[elem.usize()].and_then(|val| acc.checked_add(val))
+                });
                 if let Some(work_value) = maybe_work_value {
                     if let Some(current_value) = value[rule.lhs.usize()] {
                         if current_value <= work_value {
-- 
2.43.0


From 8c221ddcea1bc021c7483b0e0da7fdabe3b09dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 11/17] fix: a lexer class can be made from every byte and
 character

The conversion overflowed at 0xff and panicked at U+D7FF and char::MAX,
which have no next code point that is a character.
---
 cfg-regexp-logic/src/lib.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cfg-regexp-logic/src/lib.rs b/cfg-regexp-logic/src/lib.rs
index a98b61f..54f95f3 100644
--- a/cfg-regexp-logic/src/lib.rs
+++ b/cfg-regexp-logic/src/lib.rs
@@ -20,16 +20,15 @@ pub struct LexerClasses {
 
 impl From<u8> for LexerClasses {
     fn from(value: u8) -> Self {
-        LexerClasses {
-            set: iter::once((value as char, (value + 1) as char)).collect(),
-        }
+        (value as char).into()
     }
 }
 
 impl From<char> for LexerClasses {
     fn from(value: char) -> Self {
+        let after = (value..=char::MAX).nth(1).unwrap_or(value);
         LexerClasses {
-            set: iter::once((value, char::from_u32(value as u32 + 1).unwrap())).collect(),
+            set: iter::once((value, after)).collect(),
         }
     }
 }
-- 
2.43.0


From 9a023acb62a4ae6822e98e9fc31634b86730ac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 12/17] fix: LexerMap::compute stays within its table of 256
 characters

An ASCII-led range past 0xff indexed element 256 of a 256-element table.
---
 cfg-regexp-logic/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfg-regexp-logic/src/lib.rs b/cfg-regexp-logic/src/lib.rs
index 54f95f3..6eb591d 100644
--- a/cfg-regexp-logic/src/lib.rs
+++ b/cfg-regexp-logic/src/lib.rs
@@ -83,7 +83,7 @@ impl LexerMap {
         for (lexer_classes, &symbol) in &self.classes {
             for &class in &lexer_classes.set {
                 if class.0.is_ascii() {
-                    for ascii in class.0 as u32..=(class.1 as u32).min(256) {
+                    for ascii in class.0 as u32..=(class.1 as u32).min(255) {
                         result[ascii as usize].push(symbol);
                     }
                 }
-- 
2.43.0


From 31e11e5ceac2d405f49fec6e33d570f7cb943616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 13/17] fix: LexerMap::compute handles ranges that end at
 U+D7FF or char::MAX

The next character was taken as the code point plus one, which is no
character there.
---
 cfg-regexp-logic/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cfg-regexp-logic/src/lib.rs b/cfg-regexp-logic/src/lib.rs
index 6eb591d..610a1c8 100644
--- a/cfg-regexp-logic/src/lib.rs
+++ b/cfg-regexp-logic/src/lib.rs
@@ -94,10 +94,12 @@ impl LexerMap {
         for (lexer_classes, &symbol) in &self.classes {
             for &class in &lexer_classes.set {
                 ranges.entry(class.0).or_insert(vec![]).push((true, symbol));
-                ranges
-                    .entry(char::from_u32(class.1 as u32 + 1).unwrap())
-                    .or_insert(vec![])
-                    .push((false, symbol));
+                if let Some(after) = (class.1..=char::MAX).nth(1) {
+                    ranges
+                        .entry(after)
+                        .or_insert(vec![])
+                        .push((false, symbol));
+                }
             }
         }
         let mut result = BTreeMap::new();
-- 
2.43.0


From df1d39eb627bd8bbc5def955f30622c44d2d0cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 14/17] fix: a literal of a regexp is a sequence of characters,
 not bytes

The lexer map works on characters, so the bytes of a non-ASCII literal
matched other characters or none.
---
 cfg-regexp-logic/src/lib.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/cfg-regexp-logic/src/lib.rs b/cfg-regexp-logic/src/lib.rs
index 610a1c8..f02eceb 100644
--- a/cfg-regexp-logic/src/lib.rs
+++ b/cfg-regexp-logic/src/lib.rs
@@ -169,16 +169,11 @@ impl Translator {
         match hir.kind() {
             HirKind::Literal(lit) => {
                 let mut syms = vec![];
-                for &byte in &lit.0 {
-                    syms.push(
-                        *self
-                            .class_map
-                            .classes
-                            .entry(byte.into())
-                            .or_insert_with(|| {
-                                self.cfg.next_sym(Some(format!("__byte{}", byte).into()))
-                            }),
-                    );
+                for ch in String::from_utf8_lossy(&lit.0).chars() {
+                    syms.push(*self.class_map.classes.entry(ch.into()).or_insert_with(|| {
+                        self.cfg
+                            .next_sym(Some(format!("__byte{}", ch as u32).into()))
+                    }));
                 }
                 println!("{indent}Literal: {:?}", lit);
                 vec![syms]
-- 
2.43.0


From a6838937124d2240560918172ab68c523c744a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:56 +0000
Subject: [PATCH 15/17] fix: loading a text that is not BNF returns an error

A character that begins no token made Cfg::load panic.
---
 cfg-load/src/basic.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cfg-load/src/basic.rs b/cfg-load/src/basic.rs
index 4854964..3c3b835 100644
--- a/cfg-load/src/basic.rs
+++ b/cfg-load/src/basic.rs
@@ -342,7 +342,12 @@ impl CfgLoadExt for Cfg {
             rparen,
         ] = bnf_grammar.symbols();
         let mut recognizer = Recognizer::new(&bnf_grammar);
-        let tokens = Lexer::tokenize(bnf).unwrap();
+        let tokens = Lexer::tokenize(bnf).map_err(|(line_no, col_no)| LoadError {
+            reason: "failed to tokenize".to_string(),
+            line: line_no as u32,
+            col: col_no as u32,
+            token: None,
+        })?;
         for (i, ch) in tokens.iter().enumerate() {
             let terminal = match ch {
                 Token::BnfOp => bnf_op,
-- 
2.43.0


From 370bc3e96cf652420097c10f369f0d00471e67f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:39 +0000
Subject: [PATCH 16/17] fix: a text may begin with a lexer, and have several of
 them

---
 cfg-load/src/advanced.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cfg-load/src/advanced.rs b/cfg-load/src/advanced.rs
index 2fa3097..b12e0c7 100644
--- a/cfg-load/src/advanced.rs
+++ b/cfg-load/src/advanced.rs
@@ -180,8 +180,15 @@ impl forest::Eval for Evaluator {
             }
             // start ::= start decl;
             (2, Value::Start(rules, None), Value::Lex(lex), ..) => Value::Start(rules, Some(lex)),
+            // start ::= start decl;
+            (2, Value::Start(rules, Some(mut lex)), Value::Lex(lex2), ..) => {
+                lex.0.extend(lex2.0);
+                Value::Start(rules, Some(lex))
+            }
             // start ::= decl;
             (3, Value::Rules(rule), ..) => Value::Start(rule, None),
+            // start ::= decl;
+            (3, Value::Lex(lex), ..) => Value::Start(vec![], Some(lex)),
             // decl ::= rule;
             (4, Value::Rules(rules), ..) => Value::Rules(rules),
             // decl ::= lexer;
-- 
2.43.0


From 7baa8e3b3eaa65c913ba71de8921c14105d1d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:39 +0000
Subject: [PATCH 17/17] fix: errors about a rule of a rich BNF text name its
 line

---
 cfg-load/src/advanced.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cfg-load/src/advanced.rs b/cfg-load/src/advanced.rs
index b12e0c7..81c2a4d 100644
--- a/cfg-load/src/advanced.rs
+++ b/cfg-load/src/advanced.rs
@@ -128,12 +128,13 @@ impl forest::Eval for Evaluator {
             alt2,
             tilde_op,
         ] = self.symbols;
+        let (ref token, line, _col) = self.tokens[values as usize];
         if terminal == ident {
-            self.tokens[values as usize].0.ident(values as usize + 1)
+            token.ident(line)
         } else if terminal == string {
-            self.tokens[values as usize].0.string(values as usize + 1)
+            token.string(line)
         } else {
-            Value::None(values as usize + 1)
+            Value::None(line)
         }
     }
 
-- 
2.43.0

