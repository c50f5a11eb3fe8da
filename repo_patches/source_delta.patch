From cca410b3825ce7eeb94b518300513e6d433063d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:41 +0000
Subject: [PATCH 1/5] fix: step over the surrogate gap in Countable for char

char::next('\u{d7ff}') wrapped round to '\0' and char::prev('\u{e000}') returned '\u{ffff}', so
splitting overlapping char ranges at the surrogate gap built ranges that matched the wrong symbols
(or panicked).
---
 src/countable.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/countable.rs b/src/countable.rs
index e3a6b21..77b8c60 100644
--- a/src/countable.rs
+++ b/src/countable.rs
@@ -86,8 +86,15 @@ impl Countable for i64 {
 }
 
 impl Countable for char { 
-    fn next(&self) -> Self { char::from_u32((*self as u32)+1).unwrap_or('\u{0000}') }
-    fn prev(&self) -> Self { char::from_u32((*self as u32)-1).unwrap_or('\u{ffff}') }
+    // The surrogate code points (U+D800-U+DFFF) are not chars, so they need to be stepped over
+    fn next(&self) -> Self { 
+        if *self == '\u{d7ff}' { return '\u{e000}'; }
+        char::from_u32((*self as u32)+1).unwrap_or('\u{0000}')
+    }
+    fn prev(&self) -> Self { 
+        if *self == '\u{e000}' { return '\u{d7ff}'; }
+        char::from_u32((*self as u32)-1).unwrap_or('\u{ffff}')
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From d27930d7ec6ef09f3fdcf427d7c757c3c2b441a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:41 +0000
Subject: [PATCH 2/5] fix: don't let Tape::rewind go past the start of the tape

The limit was the size of the whole buffer, including any symbols after the read position: following
an earlier rewind this made it possible to move before the last cut (or before the start of the
source) and read back stale or missing symbols.
---
 src/tape.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tape.rs b/src/tape.rs
index afa621e..9a8ee67 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -127,8 +127,15 @@ impl<Symbol: Clone+Sized, SourceReader: SymbolReader<Symbol>> Tape<Symbol, Sourc
     /// Moves backwards by num_symbols
     ///
     pub fn rewind(&mut self, num_symbols: usize) {
+        // Symbols after the read position can be in the buffer (due to an earlier rewind), and can't be rewound over
+        let max_rewind = if self.first_symbol_index > self.read_index {
+            (self.read_index + self.buffer.len()) - self.first_symbol_index
+        } else {
+            self.read_index - self.first_symbol_index
+        };
+
         // Do nothing if we're over the maximum length of the buffer
-        if num_symbols > self.buffer_size() {
+        if num_symbols > max_rewind {
             panic!("Can't rewind beyond the start of the tape");
         }
 
-- 
2.43.0


From d816e7f2596c10d4d541e4ba3750d503941f5beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:41 +0000
Subject: [PATCH 3/5] fix: keep dropped split readers marked as dropped

Clearing the buffer moved the marker position used for a dropped reader, so dropping the second
reader later on tried to pop (nearly) usize::max_value() symbols and hung.
---
 src/split_reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/split_reader.rs b/src/split_reader.rs
index ce96077..cc7addb 100644
--- a/src/split_reader.rs
+++ b/src/split_reader.rs
@@ -73,7 +73,10 @@ impl<'a, Symbol: Clone> SplitSymbolReaderBuffer<'a, Symbol> {
                 }
 
                 for pos in self.positions.iter_mut() {
-                    *pos -= lowest_pos;
+                    // usize::max_value() indicates a reader that has been dropped
+                    if *pos != usize::max_value() {
+                        *pos -= lowest_pos;
+                    }
                 }
             }
         }
-- 
2.43.0


From 41771eb4406aa337289bf98f0d19e381880b60a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:41 +0000
Subject: [PATCH 4/5] fix: find every overlapping range in a SymbolMap

find_overlapping_ranges looked back at most one range from where the target would be inserted, so it
missed ranges when the map itself contained overlapping ranges (eg, 0-10 when looking up 5-5 in a
map containing 0-10, 1-2 and 5-6).
---
 src/overlapping_symbols.rs | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/overlapping_symbols.rs b/src/overlapping_symbols.rs
index fc7b91b..224d0ed 100644
--- a/src/overlapping_symbols.rs
+++ b/src/overlapping_symbols.rs
@@ -99,23 +99,14 @@ impl<Symbol: Ord+Clone+Countable> SymbolMap<Symbol> {
     pub fn find_overlapping_ranges(&self, range: &SymbolRange<Symbol>) -> Vec<&SymbolRange<Symbol>> {
         let mut result = vec![];
 
-        // Find the first range that matches (or the insertion position, which should be the first range wit a lowest value higher than the target range)
-        let existing = self.ranges.binary_search_by(|test_range| { SymbolMap::order_ranges(test_range, range) });
-
-        // Start returning values from here
-        let mut pos = match existing {
-            Ok(found_position) => found_position,
-            Err(insert_position) => insert_position
-        };
-
-        // Move backwards if the previous position overlaps this one
-        if pos > 0 && self.ranges[pos-1].highest >= range.lowest {
-            pos -= 1;
-        }
+        // Ranges in this map can overlap each other, so any range that starts before the end of the target range might overlap it
+        let mut pos = 0;
 
-        // TODO: can we construct a set of ranges such that one is missed here? Think maybe we can
         while pos < self.ranges.len() && self.ranges[pos].lowest <= range.highest {
-            result.push(&self.ranges[pos]);
+            if self.ranges[pos].highest >= range.lowest {
+                result.push(&self.ranges[pos]);
+            }
+
             pos += 1;
         }
 
-- 
2.43.0


From d599d5774ce5e0b3f0d6252c0bfa0c7b351289bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:41 +0000
Subject: [PATCH 5/5] fix: always pick the lowest output symbol when joined
 states clash

A state joined to several accepting states produced one of their output symbols at random, and
patterns that only match the empty string overwrote each other's output, so the lowest symbol was
not always the one that was produced.
---
 src/dfa_compiler.rs  |  2 +-
 src/ndfa.rs          | 15 +++++++++++++++
 src/state_machine.rs | 22 ++++++++++++++++++++++
 src/tokenizer.rs     |  6 ++++--
 4 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/src/dfa_compiler.rs b/src/dfa_compiler.rs
index 87d65be..314418e 100644
--- a/src/dfa_compiler.rs
+++ b/src/dfa_compiler.rs
@@ -199,7 +199,7 @@ impl<InputSymbol: Ord+Clone, OutputSymbol: Ord+Clone, DfaType, Ndfa: StateMachin
                     transitions.push((symbol, DfaState::create(vec![state])));
                 }
 
-                if let Some(source_output) = self.ndfa.output_symbol_for_state(*source_state) {
+                for source_output in self.ndfa.output_symbols_for_state(*source_state) {
                     output.push(source_output.clone());
                 }
             }
diff --git a/src/ndfa.rs b/src/ndfa.rs
index 8c67231..b0f26c4 100644
--- a/src/ndfa.rs
+++ b/src/ndfa.rs
@@ -195,6 +195,21 @@ impl<InputSymbol: Clone, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> f
             _ => result
         }
     }
+
+    ///
+    /// Retrieves the output symbols for a particular state and all of the states that are joined to it
+    ///
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        let mut result = vec![];
+
+        for joined in self.get_join_closure(state) {
+            if let Some(output_symbol) = self.output_symbols.get(&joined) {
+                result.push(output_symbol);
+            }
+        }
+
+        result
+    }
 }
 
 impl<InputSymbol : Clone, OutputSymbol> MutableStateMachine<InputSymbol, OutputSymbol> for Ndfa<InputSymbol, OutputSymbol> {
diff --git a/src/state_machine.rs b/src/state_machine.rs
index 7deaaa6..674024c 100644
--- a/src/state_machine.rs
+++ b/src/state_machine.rs
@@ -53,6 +53,18 @@ pub trait StateMachine<InputSymbol, OutputSymbol> {
     /// If a state is an accepting state, then this returns the output symbol that should be produced if this is the longest match
     ///
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol>;
+
+    ///
+    /// Returns every output symbol that applies to a state
+    ///
+    /// There can be more than one if the state machine allows states to be joined (see `MutableStateMachine::join_states`)
+    ///
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        match self.output_symbol_for_state(state) {
+            Some(output_symbol) => vec![output_symbol],
+            None                => vec![]
+        }
+    }
 }
 
 ///
@@ -117,6 +129,11 @@ impl<InputSymbol, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> for Rc<S
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol> {
         (**self).output_symbol_for_state(state)
     }
+
+    #[inline]
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        (**self).output_symbols_for_state(state)
+    }
 }
 
 ///
@@ -137,4 +154,9 @@ impl<'a, InputSymbol, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> for
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol> {
         (**self).output_symbol_for_state(state)
     }
+
+    #[inline]
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        (**self).output_symbols_for_state(state)
+    }
 }
diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 253b69e..d94e334 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -67,8 +67,10 @@ impl<InputSymbol: Clone+Ord+Countable+'static, OutputSymbol: Clone+Ord+'static>
             // Compile each pattern starting at state 0
             let end_state = pattern.compile(&mut ndfa, 0);
 
-            // Set the output for this pattern
-            ndfa.set_output_symbol(end_state, output.clone());
+            // Set the output for this pattern (on a state of its own: a pattern can end on the start state, which is shared by every pattern)
+            let output_state = ndfa.count_states();
+            ndfa.join_states(end_state, output_state);
+            ndfa.set_output_symbol(output_state, output.clone());
         }
 
         // Clear out any overlapping ranges so we can build a valid DFA
-- 
2.43.0

