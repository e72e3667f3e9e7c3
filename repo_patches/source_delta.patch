From a83b59e6c79df23ae94107c581fc2e4f5ad8fb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:17 +0000
Subject: [PATCH 1/9] fix: production! and grammar! keep alternatives and rules
 in source order

---
 src/grammar.rs    | 6 +++---
 src/production.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index dc06482..8d23eae 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -838,7 +838,7 @@ macro_rules! grammar {
     (@collect_prods [[$($curr_terms:expr),*] [$($curr_exprs:tt)*] [$curr_lhs:ident] $($prev_prods:tt)*] ; <$next_lhs:ident> ::= $($rest:tt)*) => {
         {
             // Save current production and start next one
-            $crate::grammar!(@collect_prods [[] [] [$next_lhs] [[$($curr_terms),*] $($curr_exprs)*] [$curr_lhs] $($prev_prods)*] $($rest)*)
+            $crate::grammar!(@collect_prods [[] [] [$next_lhs] $($prev_prods)* [$($curr_exprs)* [$($curr_terms),*]] [$curr_lhs]] $($rest)*)
         }
     };
 
@@ -849,7 +849,7 @@ macro_rules! grammar {
 
     // Hit | within a production - finish current expression, start new one
     (@collect_prods [[$($curr_terms:expr),*] [$($curr_exprs:tt)*] [$lhs:ident] $($prev_prods:tt)*] | $($rest:tt)*) => {
-        $crate::grammar!(@collect_prods [[] [[$($curr_terms),*] $($curr_exprs)*] [$lhs] $($prev_prods)*] $($rest)*)
+        $crate::grammar!(@collect_prods [[] [$($curr_exprs)* [$($curr_terms),*]] [$lhs] $($prev_prods)*] $($rest)*)
     };
 
     // Collect a literal term
@@ -869,7 +869,7 @@ macro_rules! grammar {
             {
                 let mut prods = vec![];
 
-                // Build previous productions (in reverse order since we accumulated backwards)
+                // Build previous productions, accumulated in source order
                 $(
                     let mut exprs = vec![];
                     $crate::grammar!(@build_exprs exprs $($prod_exprs)*);
diff --git a/src/production.rs b/src/production.rs
index 3f8b832..9382d31 100644
--- a/src/production.rs
+++ b/src/production.rs
@@ -144,7 +144,7 @@ macro_rules! production {
 
     // Hit | separator - finish current expression group, start new one
     (@collect_exprs [[$($current:expr),*] $($prev_exprs:tt)*] | $($rest:tt)*) => {
-        $crate::production!(@collect_exprs [[] [$($current),*] $($prev_exprs)*] $($rest)*)
+        $crate::production!(@collect_exprs [[] $($prev_exprs)* [$($current),*]] $($rest)*)
     };
 
     // Collect a literal term into current expression
@@ -163,7 +163,7 @@ macro_rules! production {
             #[allow(clippy::vec_init_then_push)]
             {
                 let mut exprs = vec![];
-                // Add previous expressions in reverse order (they were accumulated backwards)
+                // Add previous expressions, accumulated in source order
                 $(exprs.push($crate::Expression::from_parts(vec![$($prev),*]));)*
                 // Add the last expression
                 exprs.push($crate::Expression::from_parts(vec![$($last),*]));
-- 
2.43.0


From ab05ad6bd1c1ec6ae49f0db694d48d5e582d4d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:09 +0000
Subject: [PATCH 2/9] fix: generated __anon names never capture a nonterminal
 the text refers to

---
 src/parsers/mod.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 367c507..59f5e07 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -396,13 +396,31 @@ fn parsed_grammar_complete<F: Format>(input: &str) -> IResult<&str, ParsedGramma
 
 /// Normalize a parsed grammar (with `Group` and `Optional`) into a `Grammar` that uses only
 /// `Term::Terminal` and `Term::Nonterminal`. Anonymous names (`__anon0`, `__anon1`, …) are chosen
-/// so they do not clash with any existing LHS nonterminal (e.g. user-defined `<__anon0>`).
+/// so they do not clash with any nonterminal in the text (e.g. user-defined `<__anon0>`).
 /// Optionals `[A / B]` are lowered to a fresh nonterminal with alternatives `A | B | ''`.
 fn normalize_parsed_grammar(parsed: ParsedGrammar) -> Grammar {
     let mut used_names = crate::HashSet::new();
     for prod in &parsed.productions {
-        let ParsedProduction::Complex { lhs, .. } = prod;
+        let ParsedProduction::Complex { lhs, rhs } = prod;
         used_names.insert(lhs.clone());
+        collect_referenced_names(rhs, &mut used_names);
+    }
+
+    /// Record every nonterminal name the expressions refer to, including inside groups.
+    fn collect_referenced_names(exprs: &[ParsedExpression], used: &mut crate::HashSet<String>) {
+        for ParsedExpression::Terms(terms) in exprs {
+            for term in terms {
+                match term {
+                    ParsedTerm::Simple(Term::Nonterminal(name)) => {
+                        used.insert(name.clone());
+                    }
+                    ParsedTerm::Simple(Term::Terminal(_)) => {}
+                    ParsedTerm::Group(inner) | ParsedTerm::Optional(inner) => {
+                        collect_referenced_names(inner, used);
+                    }
+                }
+            }
+        }
     }
 
     let mut out_prods = Vec::new();
-- 
2.43.0


From 8b760075c4e494410f1763605b705f25ec212230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:14 +0000
Subject: [PATCH 3/9] fix: generate prints an undefined nonterminal as <name>,
 as documented

---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 8d23eae..e29bd86 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -515,7 +515,7 @@ impl Grammar {
                 .find(|p| matches!(&p.lhs, Term::Nonterminal(s) if s.as_str() == ident))
             {
                 Some(p) => p,
-                None => return Ok(ident.to_string()),
+                None => return Ok(format!("<{ident}>")),
             };
 
             /// True if the production has no choosable alternative (no RHS or only an empty/epsilon alternative).
-- 
2.43.0


From 66057c0f1ba1d07d2e4629e7dfdeb1a63b467241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:18 +0000
Subject: [PATCH 4/9] fix: Weighted no longer overflows on large weights

---
 src/generation.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/generation.rs b/src/generation.rs
index eeaec6c..530f796 100644
--- a/src/generation.rs
+++ b/src/generation.rs
@@ -275,12 +275,17 @@ impl Weighted {
 
     /// Weighted random index; if total weight is 0, returns uniform random in `0..fallback_len`.
     fn weighted_random_index(rng: &mut StdRng, weights: &[u32], fallback_len: usize) -> usize {
-        let total: u32 = weights.iter().sum();
+        // Summed as u64: many large u32 weights may exceed u32.
+        let total: u64 = weights.iter().copied().map(u64::from).sum();
         if total == 0 {
             return random_index(rng, fallback_len);
         }
-        let mut r = rng.random_range(0..total);
-        for (i, &w) in weights.iter().enumerate() {
+        // Sample as u32 whenever the total fits, so that seeded output is unaffected.
+        let mut r = match u32::try_from(total) {
+            Ok(total) => u64::from(rng.random_range(0..total)),
+            Err(_) => rng.random_range(0..total),
+        };
+        for (i, w) in weights.iter().copied().map(u64::from).enumerate() {
             if r < w {
                 return i;
             }
-- 
2.43.0


From 6e132592af34085825aa4800563cd7ac678ace7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:22 +0000
Subject: [PATCH 5/9] fix: build_parser agrees with validate on productions
 without alternatives

---
 src/parser/grammar.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser/grammar.rs b/src/parser/grammar.rs
index 087d4dd..db00364 100644
--- a/src/parser/grammar.rs
+++ b/src/parser/grammar.rs
@@ -40,14 +40,18 @@ impl<'gram, 'a> ParseGrammar<'gram> {
         let n = grammar.production_count();
         sets.reserve(n, n.saturating_mul(2));
 
+        // A production defines its LHS even when it has no alternatives, as in `Grammar::validate`.
+        for prod in grammar.productions_iter() {
+            if let crate::Term::Nonterminal(nt) = &prod.lhs {
+                sets.record_lhs(nt.as_str());
+            }
+        }
+
         let flat_prod_iter = grammar
             .productions_iter()
             .flat_map(|prod| prod.rhs_iter().map(|rhs| (&prod.lhs, rhs)));
 
         for (lhs, rhs) in flat_prod_iter {
-            if let crate::Term::Nonterminal(nt) = lhs {
-                sets.record_lhs(nt.as_str());
-            }
             for term in rhs.terms_iter() {
                 if let crate::Term::Nonterminal(nt) = term {
                     sets.record_rhs(nt.as_str());
-- 
2.43.0


From e86468846ca5a872e3bc9f8e329d2da5ca012ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:27 +0000
Subject: [PATCH 6/9] fix: Mermaid output no longer panics on a terminal
 left-hand side

---
 src/grammar.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index e29bd86..242d57f 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -223,11 +223,8 @@ impl MermaidParseTree<'_> {
             writeln!(f, "flowchart TD")?;
         }
 
-        // Parser-built trees have LHS as Nonterminal; Terminal/AnonymousNonterminal are unreachable.
-        let lhs = match self.parse_tree.lhs {
-            Term::Nonterminal(str) => str,
-            Term::Terminal(_) => unreachable!(),
-        };
+        // Trees of a grammar built by hand may have a Terminal LHS.
+        let (Term::Nonterminal(lhs) | Term::Terminal(lhs)) = self.parse_tree.lhs;
         let lhs_escaped = escape_mermaid_label(lhs);
         let lhs_count = *count;
 
@@ -243,10 +240,7 @@ impl MermaidParseTree<'_> {
                     )?;
                 }
                 ParseTreeNode::Nonterminal(parse_tree) => {
-                    let rhs = match parse_tree.lhs {
-                        Term::Nonterminal(str) => str,
-                        Term::Terminal(_) => unreachable!(),
-                    };
+                    let (Term::Nonterminal(rhs) | Term::Terminal(rhs)) = parse_tree.lhs;
                     let rhs_escaped = escape_mermaid_label(rhs);
                     writeln!(
                         f,
-- 
2.43.0


From d942ef34a9604c75f2634fc6c4626181c256c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:20 +0000
Subject: [PATCH 7/9] fix: generation errors instead of recursing forever into
 a rule that cannot finish

---
 src/grammar.rs | 51 +++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 242d57f..68c680f 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -489,9 +489,12 @@ impl Grammar {
         f: &impl Fn(&str, &str) -> bool,
         strategy: &mut S,
         depth: usize,
+        endless: &crate::HashSet<&str>,
     ) -> Result<String, Error> {
         match term {
-            Term::Nonterminal(nt) => self.traverse_with_strategy(nt, f, strategy, depth + 1),
+            Term::Nonterminal(nt) => {
+                self.traverse_with_strategy(nt, f, strategy, depth + 1, endless)
+            }
             Term::Terminal(t) => Ok(t.clone()),
         }
     }
@@ -502,6 +505,7 @@ impl Grammar {
         f: &impl Fn(&str, &str) -> bool,
         strategy: &mut S,
         depth: usize,
+        endless: &crate::HashSet<&str>,
     ) -> Result<String, Error> {
         loop {
             let production = match self
@@ -530,6 +534,12 @@ impl Grammar {
                 )));
             }
 
+            if endless.contains(ident) {
+                return Err(Error::GenerateError(format!(
+                    "Can't generate, <{ident}> doesn't lead to a terminal state"
+                )));
+            }
+
             let Some(expression) = strategy.choose(production, depth) else {
                 return Err(Error::GenerateError(String::from(
                     "Couldn't select random Expression!",
@@ -541,7 +551,7 @@ impl Grammar {
             );
             let mut result = String::new();
             for term in expression.terms_iter() {
-                match self.eval_terminal_with_strategy(term, f, strategy, depth) {
+                match self.eval_terminal_with_strategy(term, f, strategy, depth, endless) {
                     Ok(s) => result.push_str(&s),
                     Err(e) => return Err(e),
                 }
@@ -662,7 +672,8 @@ impl Grammar {
                 )));
             }
         };
-        self.traverse_with_strategy(&start_rule, &f, strategy, 0)
+        let endless = self.endless_nonterminals();
+        self.traverse_with_strategy(&start_rule, &f, strategy, 0, &endless)
     }
 
     /// Generate a random sentence from self.
@@ -713,6 +724,40 @@ impl Grammar {
         self.generate_seeded_callback(&mut rng, f)
     }
 
+    /// Nonterminals whose expansion can never finish, whichever alternatives are chosen: each of
+    /// their alternatives leads back to such a nonterminal. Generation errors when it reaches one.
+    fn endless_nonterminals(&self) -> crate::HashSet<&str> {
+        // generation expands the first production of each nonterminal
+        let mut endless: crate::HashMap<&str, &Production> = crate::HashMap::new();
+        for production in self.productions_iter() {
+            if let Term::Nonterminal(nt) = &production.lhs {
+                endless.entry(nt.as_str()).or_insert(production);
+            }
+        }
+
+        loop {
+            let finishing: Vec<&str> = endless
+                .iter()
+                .filter(|(_, production)| {
+                    production.is_empty()
+                        || production.rhs_iter().any(|expression| {
+                            expression.terms_iter().all(|term| match term {
+                                Term::Nonterminal(nt) => !endless.contains_key(nt.as_str()),
+                                Term::Terminal(_) => true,
+                            })
+                        })
+                })
+                .map(|(nt, _)| *nt)
+                .collect();
+            if finishing.is_empty() {
+                return endless.into_keys().collect();
+            }
+            for nt in finishing {
+                endless.remove(nt);
+            }
+        }
+    }
+
     /// Determine if the starting rule of the grammar can take us to a terminal state, i.e. all
     /// [`Term::Terminal`] types. Used as a check before generation, to tell if we can safely attempt
     /// to generate sentences without risking infinite loops
-- 
2.43.0


From a6a64ec8a03d7cf9669ba84ede61e58b077bd5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:30 +0000
Subject: [PATCH 8/9] fix: allow whitespace and comments after an opening ( or
 [

---
 src/parsers/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 59f5e07..02ad7f0 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -303,7 +303,7 @@ fn parsed_expression_next<F: Format>(input: &str) -> IResult<&str, &str> {
 
 fn parsed_anonymous_group<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
     let (input, rhs) = delimited(
-        complete::char('('),
+        terminated(complete::char('('), whitespace_plus_comments),
         xt_list_with_separator(parsed_expression::<F>, parsed_expression_next::<F>),
         complete::char(')'),
     )
@@ -316,7 +316,7 @@ fn parsed_anonymous_group<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
 
 fn parsed_optional_group<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
     let (input, rhs) = delimited(
-        complete::char('['),
+        terminated(complete::char('['), whitespace_plus_comments),
         xt_list_with_separator(parsed_expression::<F>, parsed_expression_next::<F>),
         complete::char(']'),
     )
-- 
2.43.0


From 41675d8d2e977cf2fe4be4f8264bb848f7ab7939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:25 +0000
Subject: [PATCH 9/9] fix: CoverageGuided tells productions apart by value, not
 by address

Addresses are reused once a grammar is dropped or edited, so a strategy shared
between grammars took alternatives it had never picked for covered, and what
it generated depended on where the allocator placed the grammar.
---
 src/generation.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/generation.rs b/src/generation.rs
index 530f796..3dcfdc7 100644
--- a/src/generation.rs
+++ b/src/generation.rs
@@ -137,13 +137,14 @@ impl GenerationStrategy for DepthBounded {
     }
 }
 
-/// Prefers expressions that have not yet been exercised; tracks (nonterminal, index) coverage.
+/// Prefers expressions that have not yet been exercised; tracks (production, index) coverage.
 ///
 /// Suited for generating data that fully explores all options of the grammar.
 #[derive(Debug)]
 pub struct CoverageGuided {
-    /// (nonterminal, `expression_index`) pairs that have been chosen.
-    seen: crate::HashSet<(*const Term, usize)>,
+    /// Indices of the expressions that have been chosen, per production. Productions are told
+    /// apart by value: an address can be reused once a grammar has been dropped.
+    seen: crate::HashMap<Production, crate::HashSet<usize>>,
     rng: StdRng,
     /// Reused buffer for uncovered indices; avoids per-call allocation.
     candidates_buf: Vec<usize>,
@@ -153,7 +154,7 @@ impl Default for CoverageGuided {
     fn default() -> Self {
         let seed = [0u8; 32];
         Self {
-            seen: crate::HashSet::new(),
+            seen: crate::HashMap::new(),
             rng: StdRng::from_seed(seed),
             candidates_buf: Vec::new(),
         }
@@ -171,19 +172,19 @@ impl CoverageGuided {
     #[must_use]
     pub fn from_seed(seed: [u8; 32]) -> Self {
         Self {
-            seen: crate::HashSet::new(),
+            seen: crate::HashMap::new(),
             rng: StdRng::from_seed(seed),
             candidates_buf: Vec::new(),
         }
     }
 
-    /// Fill `candidates_buf` with indices not yet in `seen` for this production's LHS, then pick one
+    /// Fill `candidates_buf` with indices not yet in `seen` for this production, then pick one
     /// uniformly, or fallback to any index if all are seen. Reuses `candidates_buf` to avoid alloc.
     fn fill_uncovered_and_choose_index(&mut self, production: &Production) -> usize {
-        let lhs = &production.lhs as *const Term;
+        let seen = self.seen.get(production);
         self.candidates_buf.clear();
         for i in 0..production.len() {
-            if !self.seen.contains(&(lhs, i)) {
+            if !seen.is_some_and(|seen| seen.contains(&i)) {
                 self.candidates_buf.push(i);
             }
         }
@@ -202,7 +203,12 @@ impl GenerationStrategy for CoverageGuided {
     fn choose<'p>(&mut self, production: &'p Production, _depth: usize) -> Option<&'p Expression> {
         debug_assert!(!production.is_empty(), "production must not be empty");
         let idx = self.fill_uncovered_and_choose_index(production);
-        self.seen.insert((&production.lhs as *const Term, idx));
+        if let Some(seen) = self.seen.get_mut(production) {
+            seen.insert(idx);
+        } else {
+            let seen = self.seen.entry(production.clone()).or_default();
+            seen.insert(idx);
+        }
         production.get_expression(idx)
     }
 }
-- 
2.43.0

