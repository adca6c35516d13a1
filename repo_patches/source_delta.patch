From 35d5b27dacc05919df50df281d40ab46aa9a3bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:00 +0000
Subject: [PATCH 1/4] fix: name the same undefined nonterminal in every process

The validation error reported whichever undefined nonterminal the randomly
seeded hash set yielded first, so validate() and build_parser() disagreed with
each other and from one process to the next.
---
 src/grammar.rs        | 3 ++-
 src/parser/grammar.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index dc06482..f7e80f7 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -392,7 +392,8 @@ impl Grammar {
                 }
             }
         }
-        if let Some(undefined) = sets.undefined().next() {
+        // the sets iterate in an arbitrary order: always report the same name
+        if let Some(undefined) = sets.undefined().min() {
             return Err(Error::ValidationError(format!(
                 "Undefined nonterminals: <{undefined}>"
             )));
diff --git a/src/parser/grammar.rs b/src/parser/grammar.rs
index 087d4dd..0d44cee 100644
--- a/src/parser/grammar.rs
+++ b/src/parser/grammar.rs
@@ -58,7 +58,8 @@ impl<'gram, 'a> ParseGrammar<'gram> {
             prods_by_lhs.entry(lhs).or_default().push(id);
         }
 
-        if let Some(undefined) = sets.undefined().next() {
+        // the sets iterate in an arbitrary order: always report the same name
+        if let Some(undefined) = sets.undefined().min() {
             let message = format!("Undefined nonterminals: <{undefined}>");
             return Err(Error::ValidationError(message));
         }
-- 
2.43.0


From d2750f028e68d052d241cb12633ac525c378a39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:07 +0000
Subject: [PATCH 2/4] fix: track coverage by nonterminal, not by memory address

CoverageGuided remembered the address of each production's left hand side, so
coverage was lost when a grammar was moved or cloned, and a different rule
allocated at the same address was treated as already covered.
---
 src/generation.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/generation.rs b/src/generation.rs
index eeaec6c..3fc6434 100644
--- a/src/generation.rs
+++ b/src/generation.rs
@@ -142,8 +142,8 @@ impl GenerationStrategy for DepthBounded {
 /// Suited for generating data that fully explores all options of the grammar.
 #[derive(Debug)]
 pub struct CoverageGuided {
-    /// (nonterminal, `expression_index`) pairs that have been chosen.
-    seen: crate::HashSet<(*const Term, usize)>,
+    /// Expression indices that have been chosen, per nonterminal.
+    seen: crate::HashMap<Term, crate::HashSet<usize>>,
     rng: StdRng,
     /// Reused buffer for uncovered indices; avoids per-call allocation.
     candidates_buf: Vec<usize>,
@@ -153,7 +153,7 @@ impl Default for CoverageGuided {
     fn default() -> Self {
         let seed = [0u8; 32];
         Self {
-            seen: crate::HashSet::new(),
+            seen: crate::HashMap::new(),
             rng: StdRng::from_seed(seed),
             candidates_buf: Vec::new(),
         }
@@ -171,7 +171,7 @@ impl CoverageGuided {
     #[must_use]
     pub fn from_seed(seed: [u8; 32]) -> Self {
         Self {
-            seen: crate::HashSet::new(),
+            seen: crate::HashMap::new(),
             rng: StdRng::from_seed(seed),
             candidates_buf: Vec::new(),
         }
@@ -180,10 +180,10 @@ impl CoverageGuided {
     /// Fill `candidates_buf` with indices not yet in `seen` for this production's LHS, then pick one
     /// uniformly, or fallback to any index if all are seen. Reuses `candidates_buf` to avoid alloc.
     fn fill_uncovered_and_choose_index(&mut self, production: &Production) -> usize {
-        let lhs = &production.lhs as *const Term;
+        let covered = self.seen.get(&production.lhs);
         self.candidates_buf.clear();
         for i in 0..production.len() {
-            if !self.seen.contains(&(lhs, i)) {
+            if !covered.is_some_and(|indices| indices.contains(&i)) {
                 self.candidates_buf.push(i);
             }
         }
@@ -202,7 +202,15 @@ impl GenerationStrategy for CoverageGuided {
     fn choose<'p>(&mut self, production: &'p Production, _depth: usize) -> Option<&'p Expression> {
         debug_assert!(!production.is_empty(), "production must not be empty");
         let idx = self.fill_uncovered_and_choose_index(production);
-        self.seen.insert((&production.lhs as *const Term, idx));
+        match self.seen.get_mut(&production.lhs) {
+            Some(indices) => {
+                indices.insert(idx);
+            }
+            None => {
+                self.seen
+                    .insert(production.lhs.clone(), core::iter::once(idx).collect());
+            }
+        }
         production.get_expression(idx)
     }
 }
-- 
2.43.0


From 5552819cf6545b8e72d72fedad73b8c2d9717e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:44 +0000
Subject: [PATCH 3/4] fix: sum generation weights without overflow

Weighted added its u32 weights in u32: weights whose sum exceeds u32::MAX
panicked in debug builds and wrapped to wrong proportions in release builds.
---
 src/generation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/generation.rs b/src/generation.rs
index 3fc6434..c548884 100644
--- a/src/generation.rs
+++ b/src/generation.rs
@@ -283,12 +283,13 @@ impl Weighted {
 
     /// Weighted random index; if total weight is 0, returns uniform random in `0..fallback_len`.
     fn weighted_random_index(rng: &mut StdRng, weights: &[u32], fallback_len: usize) -> usize {
-        let total: u32 = weights.iter().sum();
+        let total: u64 = weights.iter().map(|&w| u64::from(w)).sum();
         if total == 0 {
             return random_index(rng, fallback_len);
         }
         let mut r = rng.random_range(0..total);
         for (i, &w) in weights.iter().enumerate() {
+            let w = u64::from(w);
             if r < w {
                 return i;
             }
-- 
2.43.0


From 8b9094c54213a34374de8385a7a206f2a36fe16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:31 +0000
Subject: [PATCH 4/4] fix: report dead ends reached during generation instead
 of overflowing the stack

Only the start rule was checked before generation. When a choice entered a
nonterminal whose rule never ends (or the start's own first rule, when a later
rule of the same name does end), generation recursed until the stack ran out.
---
 src/grammar.rs | 49 ++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 46 insertions(+), 3 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index f7e80f7..b8b0f9f 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -495,10 +495,13 @@ impl Grammar {
         term: &Term,
         f: &impl Fn(&str, &str) -> bool,
         strategy: &mut S,
+        expandable: &crate::HashSet<&str>,
         depth: usize,
     ) -> Result<String, Error> {
         match term {
-            Term::Nonterminal(nt) => self.traverse_with_strategy(nt, f, strategy, depth + 1),
+            Term::Nonterminal(nt) => {
+                self.traverse_with_strategy(nt, f, strategy, expandable, depth + 1)
+            }
             Term::Terminal(t) => Ok(t.clone()),
         }
     }
@@ -508,6 +511,7 @@ impl Grammar {
         ident: &str,
         f: &impl Fn(&str, &str) -> bool,
         strategy: &mut S,
+        expandable: &crate::HashSet<&str>,
         depth: usize,
     ) -> Result<String, Error> {
         loop {
@@ -537,6 +541,12 @@ impl Grammar {
                 )));
             }
 
+            if !expandable.contains(ident) {
+                return Err(Error::GenerateError(format!(
+                    "Can't generate, <{ident}> doesn't lead to a terminal state"
+                )));
+            }
+
             let Some(expression) = strategy.choose(production, depth) else {
                 return Err(Error::GenerateError(String::from(
                     "Couldn't select random Expression!",
@@ -548,7 +558,7 @@ impl Grammar {
             );
             let mut result = String::new();
             for term in expression.terms_iter() {
-                match self.eval_terminal_with_strategy(term, f, strategy, depth) {
+                match self.eval_terminal_with_strategy(term, f, strategy, expandable, depth) {
                     Ok(s) => result.push_str(&s),
                     Err(e) => return Err(e),
                 }
@@ -669,7 +679,40 @@ impl Grammar {
                 )));
             }
         };
-        self.traverse_with_strategy(&start_rule, &f, strategy, 0)
+        self.traverse_with_strategy(&start_rule, &f, strategy, &self.expandable(), 0)
+    }
+
+    /// Names whose expansion can end: generation always expands the first production of a name,
+    /// and leaves undefined names as they are. Expanding any other name would never return.
+    fn expandable(&self) -> crate::HashSet<&str> {
+        let mut productions: crate::HashMap<&str, &Production> = crate::HashMap::new();
+        for production in self.productions_iter() {
+            if let Term::Nonterminal(name) = &production.lhs {
+                productions.entry(name.as_str()).or_insert(production);
+            }
+        }
+
+        let mut expandable: crate::HashSet<&str> = crate::HashSet::new();
+        loop {
+            let before = expandable.len();
+            for (name, production) in &productions {
+                let ends = production.rhs_iter().any(|expression| {
+                    expression.terms_iter().all(|term| match term {
+                        Term::Terminal(_) => true,
+                        Term::Nonterminal(nt) => {
+                            expandable.contains(nt.as_str())
+                                || !productions.contains_key(nt.as_str())
+                        }
+                    })
+                });
+                if ends {
+                    expandable.insert(*name);
+                }
+            }
+            if expandable.len() == before {
+                return expandable;
+            }
+        }
     }
 
     /// Generate a random sentence from self.
-- 
2.43.0

