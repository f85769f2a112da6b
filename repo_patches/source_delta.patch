From 547fd5e5fcae2de1c5768e81915aa23b84dd9a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 01/19] fix: positioned productions compare by position as well
 as production

ProdState's Eq and Ord ignored the index, so two positions in one production
counted as the same Earley item: left-recursive and ambiguous grammars made
the parser panic, and item sets lost members.
---
 src/state.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 514d43d..9f495cb 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -50,7 +50,10 @@ where
   NT: Ord,
 {
   fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-    self.prod.cmp(&other.prod)
+    self
+      .prod
+      .cmp(&other.prod)
+      .then_with(|| self.index.cmp(&other.index))
   }
 }
 
@@ -68,7 +71,7 @@ where
   NT: Ord,
 {
   fn eq(&self, other: &Self) -> bool {
-    self.prod == other.prod
+    self.prod == other.prod && self.index == other.index
   }
 }
 
-- 
2.43.0


From dd7e50815e25a6efec051c0174140873c08209e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 02/19] fix: a token that nothing can continue with is a failed
 parse, not a panic

parse() asserted that every shift leaves at least one item, so any syntax
error panicked instead of returning None.
---
 src/parsers/earley.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parsers/earley.rs b/src/parsers/earley.rs
index c7a1fa2..1d0e7b0 100644
--- a/src/parsers/earley.rs
+++ b/src/parsers/earley.rs
@@ -78,6 +78,11 @@ where
   for token in tokens {
     let mut new_state = states.last().unwrap().shift(tree_handle, &token);
 
+    // No production continues with this token, so there is no parse.
+    if new_state.is_empty() {
+      return None;
+    }
+
     close_state(grammar, tree_handle, &states, &mut new_state);
 
     states.push(new_state);
-- 
2.43.0


From 709e3df545b216ac20b3d24f6957186966e98a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 03/19] fix: keep the nodes of different splits of a span apart
 in parse forests

Two ways to split the span of a production were merged child by child, so the
forest of an ambiguous sentence contained trees mixing children of different
splits, which do not derive the input.
---
 src/parsers/earley/state.rs | 58 +++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/src/parsers/earley/state.rs b/src/parsers/earley/state.rs
index b6e6a5d..72cb7db 100644
--- a/src/parsers/earley/state.rs
+++ b/src/parsers/earley/state.rs
@@ -18,7 +18,7 @@ use {
     utils::{change_iter, WasChanged},
   },
   im::Vector,
-  std::collections::{btree_map, BTreeMap},
+  std::collections::BTreeMap,
 };
 
 #[derive(Derivative)]
@@ -224,9 +224,16 @@ where
   }
 }
 
+/// A set of earley states.
+///
+/// A state that is reached by splitting its span in different ways has one list
+/// of nodes for each of the ways, as nodes of different ways must not be mixed
+/// within a single branch.
 pub struct EarleyStateSet<'a, T, NT, AK, AV, V> {
-  states:
-    BTreeMap<EarleyStateKey<'a, T, NT, AK, AV>, Vector<Node<'a, T, AK, V>>>,
+  states: BTreeMap<
+    EarleyStateKey<'a, T, NT, AK, AV>,
+    Vec<Vector<Node<'a, T, AK, V>>>,
+  >,
 }
 
 impl<T, NT, AK, AV, V> Default for EarleyStateSet<'_, T, NT, AK, AV, V> {
@@ -250,9 +257,11 @@ impl<'a, T, NT, AK, AV, V> EarleyStateSet<'a, T, NT, AK, AV, V> {
   pub fn states<'b>(
     &'b self,
   ) -> impl Iterator<Item = EarleyState<'a, T, NT, AK, AV, V>> + 'b {
-    self.states.iter().map(|(key, value)| EarleyState {
-      key: key.clone(),
-      value: value.clone(),
+    self.states.iter().flat_map(|(key, values)| {
+      values.iter().map(move |value| EarleyState {
+        key: key.clone(),
+        value: value.clone(),
+      })
     })
   }
 }
@@ -289,20 +298,29 @@ where
     &mut self,
     state: &EarleyState<'a, T, NT, AK, AV, V>,
   ) -> WasChanged {
-    match self.states.entry(state.key.clone()) {
-      btree_map::Entry::Vacant(vac) => {
-        vac.insert(state.value.clone());
+    let new_nodes = &state.value;
+    let existing_values = self.states.entry(state.key.clone()).or_default();
+
+    // Only the last nodes of lists that agree on all nodes before can be
+    // merged.
+    let same_prefix = existing_values.iter().find(|existing_nodes| {
+      assert_eq!(existing_nodes.len(), new_nodes.len());
+      let prefix_len = new_nodes.len().saturating_sub(1);
+      existing_nodes
+        .iter()
+        .take(prefix_len)
+        .eq(new_nodes.iter().take(prefix_len))
+    });
+
+    match same_prefix {
+      Some(existing_nodes) => change_iter(
+        existing_nodes.last().into_iter().zip(new_nodes.last()),
+        |(existing_node, new_node)| existing_node.add_all(new_node),
+      ),
+      None => {
+        existing_values.push(new_nodes.clone());
         WasChanged::Changed
       }
-      btree_map::Entry::Occupied(mut occ) => {
-        let existing_nodes = occ.get_mut();
-        let new_nodes = &state.value;
-        assert_eq!(existing_nodes.len(), new_nodes.len());
-        change_iter(
-          existing_nodes.iter_mut().zip(new_nodes),
-          |(existing_node, new_node)| existing_node.add_all(new_node),
-        )
-      }
     }
   }
 
@@ -322,8 +340,10 @@ where
   pub fn get_final(&self) -> Option<&Node<'a, T, AK, V>> {
     for (k, v) in &self.states {
       if k.is_final_key() {
+        // The only prefix a list of a single node can have is the empty one.
         assert_eq!(v.len(), 1);
-        return Some(v.get(0).unwrap());
+        assert_eq!(v[0].len(), 1);
+        return v[0].get(0);
       }
     }
 
-- 
2.43.0


From 2c435972784fa20c58bb7c8f0b455eb2ed47bab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 04/19] fix: a breadth first search reaches its initial items

The items the search starts from were neither marked as seen nor part of the
result, unless some step led back to them.
---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 3d8c999..c181696 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -160,7 +160,7 @@ where
 {
   let mut next_set = BTreeSet::new();
   let mut curr_set: BTreeSet<_> = initial.into_iter().collect();
-  let mut seen_set = next_set.clone();
+  let mut seen_set = curr_set.clone();
 
   while !curr_set.is_empty() {
     for next_item in &curr_set {
-- 
2.43.0


From e2e95da6ac203a73884b801f7bb43dd6c84960d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 05/19] fix: apply_fixed_point advances to the changed entries

The work list was never replaced, so the function did not return for any
nonempty map.
---
 src/utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index c181696..1696343 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -372,7 +372,7 @@ pub fn apply_fixed_point<K, V, P: FixedPointProcessor<K, V>>(
 ) where
   K: Clone + Ord,
 {
-  let currs = target.keys().cloned().collect::<BTreeSet<_>>();
+  let mut currs = target.keys().cloned().collect::<BTreeSet<_>>();
   let mut nexts = BTreeSet::new();
 
   while !currs.is_empty() {
@@ -395,5 +395,8 @@ pub fn apply_fixed_point<K, V, P: FixedPointProcessor<K, V>>(
         }
       }
     }
+
+    std::mem::swap(&mut currs, &mut nexts);
+    nexts.clear();
   }
 }
-- 
2.43.0


From 2b2389ef8f1e46708c88f08881228692899fb90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 06/19] fix: building a grammar that lacks a rule is an error,
 not a panic

The reachability check looked up the rule of every reachable nonterminal, and
panicked before the missing rule could be reported. A start nonterminal
without a rule was not reported at all.
---
 src/grammar/base.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/grammar/base.rs b/src/grammar/base.rs
index f299357..ee19dea 100644
--- a/src/grammar/base.rs
+++ b/src/grammar/base.rs
@@ -422,8 +422,8 @@ where
   }
 
   fn nonterminals_without_rules(&self) -> BTreeSet<&NT> {
-    self
-      .get_nonterminals()
+    std::iter::once(&self.start_symbol)
+      .chain(self.get_nonterminals())
       .filter(move |nt| !self.rule_set.contains_key(nt))
       .collect()
   }
@@ -440,8 +440,9 @@ where
   fn reachable_nonterms(&self) -> BTreeSet<&NT> {
     breadth_first_search(std::iter::once(&self.start_symbol), |nt| {
       self
-        .get_rule(nt)
-        .prods()
+        .try_get_rule(nt)
+        .into_iter()
+        .flat_map(|r| r.prods())
         .flat_map(|p| p.elements())
         .filter_map(|e| e.as_nonterm())
         .collect::<BTreeSet<_>>()
-- 
2.43.0


From a7850a9b12876a9720ff7047894cb8c56378e136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 07/19] fix: requesting a failed pass again reports its error
 again

The in-process marker of a pass that failed was left behind, so the next
request panicked with a recursive loop that does not exist.
---
 src/grammar/passes/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/grammar/passes/mod.rs b/src/grammar/passes/mod.rs
index 3b49a86..c9ed5c0 100644
--- a/src/grammar/passes/mod.rs
+++ b/src/grammar/passes/mod.rs
@@ -109,7 +109,13 @@ impl<'a, T, NT, AK, AV> PassContext<'a, T, NT, AK, AV> {
         let mut guard = self.passes.borrow_mut();
         guard.insert(pass_type, Rc::new(NoCurrentValue));
       }
-      let value = P::run_pass(self)?;
+      let result = P::run_pass(self);
+      if result.is_err() {
+        // The pass is no longer in process, so that requesting it again
+        // reports the error again.
+        self.passes.borrow_mut().remove(&pass_type);
+      }
+      let value = result?;
       let mut guard = self.passes.borrow_mut();
       guard.insert(pass_type, Rc::new(value));
     };
-- 
2.43.0


From 108c99b2d7051b93f62743d5cab610c43a73c649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 08/19] fix: follow sets look past nullable nonterminals

Only the directly next element was considered, so what follows a nullable
nonterminal was missing, and a nonterminal that derives only the empty sequence
(which has no first set) made the pass panic.
---
 src/grammar/passes/follows.rs | 37 +++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/grammar/passes/follows.rs b/src/grammar/passes/follows.rs
index d560aca..5cdcfaf 100644
--- a/src/grammar/passes/follows.rs
+++ b/src/grammar/passes/follows.rs
@@ -4,6 +4,7 @@ use crate::utils::{change_iter, change_loop, WasChanged};
 use crate::{grammar::Elem, utils::CollectMap};
 
 use super::firsts::{Firsts, FirstsError};
+use super::nullable::Nullable;
 use super::Pass;
 
 #[derive(thiserror::Error, Debug)]
@@ -28,6 +29,9 @@ where
     let gram = pass_map.grammar();
 
     let firsts = pass_map.get_pass::<Firsts<T, NT>>()?;
+    let nullables = pass_map
+      .get_pass::<Nullable<NT, AK>>()
+      .map_err(FirstsError::from)?;
 
     let mut follows = CollectMap::new();
 
@@ -35,20 +39,29 @@ where
       change_iter(gram.prods(), |prod| {
         let mut changed = WasChanged::Unchanged;
         let elems = prod.elements().collect::<Vec<_>>();
-        for elem_pair in elems.windows(2) {
-          if let Elem::NonTerm(first_nt) = elem_pair[0] {
-            match elem_pair[1] {
-              Elem::Term(t) => changed.merge(follows.insert(first_nt, t)),
-              Elem::NonTerm(second_nt) => changed.merge(
-                follows
-                  .insert_iter(first_nt, firsts.get(second_nt).unwrap().iter()),
-              ),
+        'elems: for (i, elem) in elems.iter().enumerate() {
+          if let Elem::NonTerm(first_nt) = elem {
+            // Everything up to the first non-nullable element can follow.
+            for next_elem in &elems[i + 1..] {
+              match next_elem {
+                Elem::Term(t) => {
+                  changed.merge(follows.insert(first_nt, t));
+                  continue 'elems;
+                }
+                Elem::NonTerm(second_nt) => {
+                  changed.merge(follows.insert_iter(
+                    first_nt,
+                    firsts.get(second_nt).into_iter().flatten(),
+                  ));
+                  if !nullables.is_nullable(second_nt) {
+                    continue 'elems;
+                  }
+                }
+              }
             }
-          }
-        }
 
-        if let Some(Elem::NonTerm(last_nt)) = elems.last() {
-          changed.merge(follows.insert_from_key_set(last_nt, prod.head()));
+            changed.merge(follows.insert_from_key_set(first_nt, prod.head()));
+          }
         }
 
         changed
-- 
2.43.0


From cc9ad35be11761c85cbffe2974abc208849964d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 09/19] fix: LR lookaheads look past nullable nonterminals

Only the element directly after the expanded nonterminal was considered, so
lookaheads behind a nullable element were missing, and a nonterminal that
derives only the empty sequence made the closure panic.
---
 src/parsers/lalr.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/parsers/lalr.rs b/src/parsers/lalr.rs
index 47cc181..547d1d9 100644
--- a/src/parsers/lalr.rs
+++ b/src/parsers/lalr.rs
@@ -2,7 +2,7 @@ use std::collections::{btree_map, BTreeMap, BTreeSet};
 
 use crate::{
   grammar::{
-    passes::{firsts::Firsts, PassContext},
+    passes::{firsts::Firsts, nullable::Nullable, PassContext},
     Elem,
   },
   state::ProdState,
@@ -84,17 +84,36 @@ where
     items: impl IntoIterator<Item = (ProdState<'a, T, NT, AK, AV>, BTreeSet<T>)>,
   ) -> anyhow::Result<Self> {
     let firsts = passes.get_pass::<Firsts<T, NT>>()?;
+    let nullables = passes.get_pass::<Nullable<NT, AK>>()?;
     let mut prods = CollectMap::from_seed(items.into_iter().collect());
 
     change_loop(|| {
       let mut new_expansions = Vec::new();
       for (prod, la) in prods.iter() {
         if let Some(Elem::NonTerm(nt)) = prod.next_elem() {
-          let new_la = match prod.offset_elem(1) {
-            Some(Elem::NonTerm(nt)) => firsts.get(nt).unwrap().clone(),
-            Some(Elem::Term(t)) => std::iter::once(t.clone()).collect(),
-            None => la.clone(),
-          };
+          // Everything up to the first non-nullable element can follow.
+          let mut new_la = BTreeSet::new();
+          let mut offset = 1;
+          loop {
+            match prod.offset_elem(offset) {
+              Some(Elem::NonTerm(next_nt)) => {
+                new_la
+                  .extend(firsts.get(next_nt).into_iter().flatten().cloned());
+                if !nullables.is_nullable(next_nt) {
+                  break;
+                }
+              }
+              Some(Elem::Term(t)) => {
+                new_la.insert(t.clone());
+                break;
+              }
+              None => {
+                new_la.extend(la.iter().cloned());
+                break;
+              }
+            }
+            offset += 1;
+          }
 
           new_expansions.push((nt, new_la));
         }
-- 
2.43.0


From b42f2e9ff21ae90570a19a5a8b6f968dde26d6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 10/19] fix: VecTokenStream yields its tokens

The bounds check was inverted: reading a nonempty stream panicked.
---
 src/parsers/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 38b95f5..a72b8ed 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -58,7 +58,7 @@ where
   T: Clone,
 {
   fn next(&self) -> Option<(Token<K, T>, Self)> {
-    if self.tokens.len() < self.position {
+    if self.position < self.tokens.len() {
       Some((
         self.tokens[self.position].clone(),
         VecTokenStream {
-- 
2.43.0


From c746349ca556c2d68ff7467c091563ef12510c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 11/19] fix: null elimination keeps the nonempty variants of
 nullable productions

Productions that can be empty were dropped altogether, so the result lost all
their nonempty sentences, against the module's own example, and often failed to
build. Only the empty variant is dropped now, and nonterminals that are never
anything but empty disappear.
---
 src/grammar/transform/nonnull.rs | 51 +++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/src/grammar/transform/nonnull.rs b/src/grammar/transform/nonnull.rs
index cb2a15b..519f957 100644
--- a/src/grammar/transform/nonnull.rs
+++ b/src/grammar/transform/nonnull.rs
@@ -55,9 +55,9 @@ use {
       },
       Elem, Grammar, Prod, ProdElement, ProdKey, RuleBuilder,
     },
-    utils::{Name, ToDoc, TreeNode, Void},
+    utils::{fixed_point, Name, ToDoc, TreeNode, Void},
   },
-  std::collections::BTreeMap,
+  std::collections::{BTreeMap, BTreeSet},
 };
 
 #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
@@ -119,15 +119,23 @@ where
   let pass_map = PassContext::new(g);
   let nullable = pass_map.get_pass::<Nullable<NT, AK>>()?;
 
+  let null_only = null_only_nonterms(g);
+
   build(g.start_nt().clone(), |g_builder| {
     for (nt, rule) in g.rule_set() {
+      // These have no production left, and are not mentioned any more.
+      if null_only.contains(nt) {
+        continue;
+      }
+
       g_builder.add_rule(nt.clone(), |r_builder| {
         for prod in rule.prods() {
-          if nullable.is_prod_nullable(&prod) {
-            continue;
-          }
-
-          build_nonnull_prods(nullable.get_nullable_info(), &prod, r_builder);
+          build_nonnull_prods(
+            nullable.get_nullable_info(),
+            &null_only,
+            &prod,
+            r_builder,
+          );
         }
       });
     }
@@ -135,6 +143,23 @@ where
   .map_err(|_| anyhow::anyhow!("Grammar failed to build"))
 }
 
+/// Returns the nonterminals that derive nothing but the empty sequence.
+fn null_only_nonterms<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>) -> BTreeSet<NT>
+where
+  NT: Ord + Clone,
+{
+  fixed_point(BTreeSet::new(), |null_only| {
+    g.rules()
+      .filter(|rule| {
+        rule.prods().flat_map(|prod| prod.elements()).all(|elem| {
+          elem.as_nonterm().map_or(false, |nt| null_only.contains(nt))
+        })
+      })
+      .map(|rule| rule.head().clone())
+      .collect()
+  })
+}
+
 #[derive(Clone, Debug)]
 struct ProdBuildState<T, NT, AK> {
   elems: Vec<ProdElement<T, NT>>,
@@ -144,6 +169,7 @@ struct ProdBuildState<T, NT, AK> {
 
 fn build_nonnull_prods<T, NT, AK, AV>(
   nullable_info: &GrammarNullableInfo<NT, AK>,
+  null_only: &BTreeSet<NT>,
   prod: &Prod<T, NT, AK, AV>,
   r_builder: &mut NonNullRuleBuilder<T, NT, AK, AV>,
 ) where
@@ -182,7 +208,12 @@ fn build_nonnull_prods<T, NT, AK, AV>(
               new_build_states.push(new_build_state);
             }
 
-            curr_build_states.append(&mut new_build_states);
+            if null_only.contains(nt) {
+              // There is no non-null version.
+              curr_build_states = new_build_states;
+            } else {
+              curr_build_states.append(&mut new_build_states);
+            }
           }
           None => {
             for curr_build_state in &mut curr_build_states {
@@ -202,6 +233,10 @@ fn build_nonnull_prods<T, NT, AK, AV>(
   }
 
   for curr_build_state in curr_build_states {
+    if curr_build_state.elems.is_empty() {
+      continue;
+    }
+
     let prev_action_value = prod.action_value();
 
     let new_action_key = ActionKey {
-- 
2.43.0


From c5015b35ecc9942d101c012600f39587e013c82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 12/19] fix: the tree store does not lock itself while it holds
 its lock

Comparing stores locked the same lock for reading twice, and creating a branch
ran the caller's iterator while holding the lock. With a writer waiting in
another thread, or an iterator that adds to the tree, that is a deadlock.
---
 src/parsers/tree.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/parsers/tree.rs b/src/parsers/tree.rs
index 85963f7..f652754 100644
--- a/src/parsers/tree.rs
+++ b/src/parsers/tree.rs
@@ -177,10 +177,6 @@ where
     let node_data = self.get_node_mut(node_index);
     WasChanged::from_changed(node_data.alternatives.insert(alt_index))
   }
-
-  pub fn is_same(&self, other: &Self) -> bool {
-    std::ptr::eq(self, other)
-  }
 }
 
 /// The owning object of an AST tree.
@@ -327,16 +323,16 @@ where
     action: AK,
     nodes: impl IntoIterator<Item = Node<'a, T, AK, V>>,
   ) -> Alternative<T, AK, V> {
-    let node_indexes = self.with(|inner| {
-      nodes
-        .into_iter()
-        .inspect(|n| {
-          // Check that all nodes are coming from the same inner instance.
-          assert!(n.inner.with(|n_inner| { inner.is_same(n_inner) }));
-        })
-        .map(|n| n.index)
-        .collect()
-    });
+    // The lock must not be held here: the iterator may use the tree itself, and
+    // locking it again blocks when a writer is waiting.
+    let node_indexes = nodes
+      .into_iter()
+      .inspect(|n| {
+        // Check that all nodes are coming from the same inner instance.
+        assert!(self.is_same(&n.inner));
+      })
+      .map(|n| n.index)
+      .collect();
 
     self.make_alt(NodeContentInner::Branch(BranchData {
       action,
@@ -345,9 +341,7 @@ where
   }
 
   pub fn is_same(&self, other: &Self) -> bool {
-    self.with(|self_inner| {
-      other.with(|other_inner| self_inner.is_same(other_inner))
-    })
+    std::ptr::eq(self.0, other.0)
   }
 }
 
-- 
2.43.0


From 19bdc2ef2330b0eed21793031cfddf875a3338ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 13/19] fix: rendering a node as DOT shows the node itself

The root was only part of the output when it could be reached from itself.
---
 src/parsers/tree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers/tree.rs b/src/parsers/tree.rs
index f652754..02f6596 100644
--- a/src/parsers/tree.rs
+++ b/src/parsers/tree.rs
@@ -589,6 +589,7 @@ where
   let mut curr = BTreeSet::new();
   let mut next = BTreeSet::new();
 
+  seen.insert(DotNode::Node(node.index));
   curr.insert(DotNode::Node(node.index));
 
   while !curr.is_empty() {
-- 
2.43.0


From b481e5a63f590dac3e1b3414727a068ccd5d9f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 14/19] Verification hooks behind cfg(bongo_verif): access to
 follow sets, LR states, text positions and mergeable values

---
 src/grammar/passes/follows.rs | 11 ++++++++++
 src/lib.rs                    |  2 ++
 src/parsers/lalr.rs           | 41 +++++++++++++++++++++++++++++++++++
 src/utils/buffer.rs           |  8 +++++++
 src/utils/mergeables.rs       |  8 +++++++
 5 files changed, 70 insertions(+)

diff --git a/src/grammar/passes/follows.rs b/src/grammar/passes/follows.rs
index 5cdcfaf..8684ae3 100644
--- a/src/grammar/passes/follows.rs
+++ b/src/grammar/passes/follows.rs
@@ -77,3 +77,14 @@ where
     ))
   }
 }
+
+#[cfg(bongo_verif = "follows")]
+impl<T, NT> Follows<T, NT>
+where
+  NT: Ord,
+{
+  /// Verification hook: the computed set, as `Firsts::get` gives it.
+  pub fn verif_get(&self, nt: &NT) -> Option<&BTreeSet<T>> {
+    self.0.get(nt)
+  }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 479cda4..1b824f0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -15,6 +15,8 @@
 //! Bongo is a library for generating Marpa parsers, and executing them on inputs.
 
 #![allow(dead_code)]
+// The `bongo_verif` cfg guards hooks for verification.
+#![allow(unexpected_cfgs)]
 
 #[macro_use]
 extern crate derivative;
diff --git a/src/parsers/lalr.rs b/src/parsers/lalr.rs
index 547d1d9..327e292 100644
--- a/src/parsers/lalr.rs
+++ b/src/parsers/lalr.rs
@@ -165,3 +165,44 @@ where
     })
   }
 }
+
+/// Verification hook: the closure, shift and reduce operations on opaque
+/// states.
+#[cfg(bongo_verif = "lalr")]
+pub mod verif {
+  use super::*;
+
+  #[derive(Clone)]
+  pub struct State<'a, T, NT, AK, AV>(ParseState<'a, T, NT, AK, AV>);
+
+  impl<'a, T, NT, AK, AV> State<'a, T, NT, AK, AV>
+  where
+    T: Ord + Clone + 'static,
+    NT: Ord + Clone + 'static,
+    AK: Ord + Clone + 'static,
+  {
+    pub fn closure(
+      passes: &PassContext<'a, T, NT, AK, AV>,
+      items: Vec<(ProdState<'a, T, NT, AK, AV>, BTreeSet<T>)>,
+    ) -> anyhow::Result<Self> {
+      ParseState::from_prod_lookahead(passes, items).map(State)
+    }
+
+    pub fn items(&self) -> Vec<(ProdState<'a, T, NT, AK, AV>, BTreeSet<T>)> {
+      let items = self.0.prods.iter();
+      items.map(|(p, la)| (p.clone(), la.clone())).collect()
+    }
+
+    pub fn shifts(
+      &self,
+      passes: &PassContext<'a, T, NT, AK, AV>,
+    ) -> anyhow::Result<BTreeMap<T, Self>> {
+      let shifts = self.0.shift_actions(passes)?;
+      Ok(shifts.into_iter().map(|(t, s)| (t, State(s))).collect())
+    }
+
+    pub fn reducible(&self) -> Vec<AK> {
+      self.0.reducable_actions().cloned().collect()
+    }
+  }
+}
diff --git a/src/utils/buffer.rs b/src/utils/buffer.rs
index 1a64d82..7ae1d28 100644
--- a/src/utils/buffer.rs
+++ b/src/utils/buffer.rs
@@ -278,6 +278,14 @@ impl TextPos {
   }
 }
 
+#[cfg(bongo_verif = "textpos")]
+impl TextPos {
+  /// Verification hook: line, column and byte offset.
+  pub fn verif_parts(&self) -> (usize, usize, usize) {
+    (self.line(), self.column(), self.byte_offset())
+  }
+}
+
 #[cfg(test)]
 mod test {
   use super::*;
diff --git a/src/utils/mergeables.rs b/src/utils/mergeables.rs
index 182ad05..f9e5cec 100644
--- a/src/utils/mergeables.rs
+++ b/src/utils/mergeables.rs
@@ -24,6 +24,14 @@ impl<K, V> Value<K, V> {
   }
 }
 
+#[cfg(bongo_verif = "mergeables")]
+impl<K, V> Value<K, V> {
+  /// Verification hook: there is no other way to make a first value.
+  pub fn verif_new(key: K, value: V) -> Self {
+    Value { key, value }
+  }
+}
+
 #[derive(Debug)]
 pub struct ValueRef<'a, K, V> {
   key: &'a K,
-- 
2.43.0


From b5242c23a18fbbc54ee0d6aacba75e29733efbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 15/19] Verification hook behind cfg(bongo_verif): a lock for
 the tree store that a scheduler controls

---
 src/lib.rs          |   2 +
 src/parsers/tree.rs |   3 +
 src/verif_sync.rs   | 183 ++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 188 insertions(+)
 create mode 100644 src/verif_sync.rs

diff --git a/src/lib.rs b/src/lib.rs
index 1b824f0..39b462c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -26,6 +26,8 @@ pub mod parsers;
 pub mod start_grammar;
 pub mod state;
 pub mod utils;
+#[cfg(bongo_verif = "sync")]
+pub mod verif_sync;
 
 #[cfg(test)]
 mod tests {
diff --git a/src/parsers/tree.rs b/src/parsers/tree.rs
index 02f6596..decb64a 100644
--- a/src/parsers/tree.rs
+++ b/src/parsers/tree.rs
@@ -12,6 +12,9 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#[cfg(bongo_verif = "sync")]
+use crate::verif_sync::{Arc, RwLock};
+#[cfg(not(bongo_verif = "sync"))]
 use std::sync::{Arc, RwLock};
 
 use crate::utils::{change_iter, WasChanged};
diff --git a/src/verif_sync.rs b/src/verif_sync.rs
new file mode 100644
index 0000000..68976a4
--- /dev/null
+++ b/src/verif_sync.rs
@@ -0,0 +1,183 @@
+// Copyright 2020 Google LLC
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     https://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+//! Replacement of `std::sync` for verification: a reader-writer lock that asks
+//! a scheduler before it is taken.
+
+use std::ops::{Deref, DerefMut};
+pub use std::sync::Arc;
+use std::sync::{self, LockResult, OnceLock, PoisonError};
+use std::sync::{TryLockError, TryLockResult};
+
+#[derive(Clone, Copy, PartialEq, Eq, Debug)]
+pub enum Event {
+  /// A thread wants to take the lock. The hook returns when it may.
+  Read,
+  Write,
+  /// A thread is about to try taking the lock.
+  Try,
+  /// Trying succeeded.
+  TriedRead,
+  TriedWrite,
+  /// The lock was released.
+  ReadDone,
+  WriteDone,
+}
+
+/// Called with the address of the lock.
+pub type Hook = fn(usize, Event);
+
+static HOOK: OnceLock<Hook> = OnceLock::new();
+
+/// Installs the scheduler, once.
+pub fn set_hook(hook: Hook) {
+  let _ = HOOK.set(hook);
+}
+
+fn event(lock: usize, event: Event) {
+  if let Some(hook) = HOOK.get() {
+    hook(lock, event);
+  }
+}
+
+#[derive(Debug, Default)]
+pub struct RwLock<T> {
+  inner: sync::RwLock<T>,
+}
+
+impl<T> RwLock<T> {
+  pub fn new(value: T) -> Self {
+    RwLock {
+      inner: sync::RwLock::new(value),
+    }
+  }
+
+  fn id(&self) -> usize {
+    self as *const Self as usize
+  }
+
+  pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
+    event(self.id(), Event::Read);
+    let lock = Release(self.id(), Event::ReadDone);
+    match self.inner.try_read() {
+      Ok(guard) => Ok(RwLockReadGuard { guard, lock }),
+      Err(TryLockError::Poisoned(e)) => {
+        let guard = e.into_inner();
+        Err(PoisonError::new(RwLockReadGuard { guard, lock }))
+      }
+      Err(TryLockError::WouldBlock) => panic!("the lock is not free"),
+    }
+  }
+
+  pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
+    event(self.id(), Event::Write);
+    let lock = Release(self.id(), Event::WriteDone);
+    match self.inner.try_write() {
+      Ok(guard) => Ok(RwLockWriteGuard { guard, lock }),
+      Err(TryLockError::Poisoned(e)) => {
+        let guard = e.into_inner();
+        Err(PoisonError::new(RwLockWriteGuard { guard, lock }))
+      }
+      Err(TryLockError::WouldBlock) => panic!("the lock is not free"),
+    }
+  }
+
+  pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
+    event(self.id(), Event::Try);
+    let taken = |guard| {
+      event(self.id(), Event::TriedRead);
+      let lock = Release(self.id(), Event::ReadDone);
+      RwLockReadGuard { guard, lock }
+    };
+    match self.inner.try_read() {
+      Ok(guard) => Ok(taken(guard)),
+      Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(
+        PoisonError::new(taken(e.into_inner())),
+      )),
+      Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+    }
+  }
+
+  pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
+    event(self.id(), Event::Try);
+    let taken = |guard| {
+      event(self.id(), Event::TriedWrite);
+      let lock = Release(self.id(), Event::WriteDone);
+      RwLockWriteGuard { guard, lock }
+    };
+    match self.inner.try_write() {
+      Ok(guard) => Ok(taken(guard)),
+      Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(
+        PoisonError::new(taken(e.into_inner())),
+      )),
+      Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+    }
+  }
+
+  pub fn is_poisoned(&self) -> bool {
+    self.inner.is_poisoned()
+  }
+
+  pub fn get_mut(&mut self) -> LockResult<&mut T> {
+    self.inner.get_mut()
+  }
+
+  pub fn into_inner(self) -> LockResult<T> {
+    self.inner.into_inner()
+  }
+}
+
+/// Reports the release of a lock when dropped.
+struct Release(usize, Event);
+
+impl Drop for Release {
+  fn drop(&mut self) {
+    event(self.0, self.1);
+  }
+}
+
+// The guards release the inner lock before they report it: fields are dropped
+// in the order of declaration.
+
+pub struct RwLockReadGuard<'a, T> {
+  guard: sync::RwLockReadGuard<'a, T>,
+  #[allow(dead_code)]
+  lock: Release,
+}
+
+impl<T> Deref for RwLockReadGuard<'_, T> {
+  type Target = T;
+  fn deref(&self) -> &T {
+    &self.guard
+  }
+}
+
+pub struct RwLockWriteGuard<'a, T> {
+  guard: sync::RwLockWriteGuard<'a, T>,
+  #[allow(dead_code)]
+  lock: Release,
+}
+
+impl<T> Deref for RwLockWriteGuard<'_, T> {
+  type Target = T;
+  fn deref(&self) -> &T {
+    &self.guard
+  }
+}
+
+impl<T> DerefMut for RwLockWriteGuard<'_, T> {
+  fn deref_mut(&mut self) -> &mut T {
+    &mut self.guard
+  }
+}
-- 
2.43.0


From a844972fb82934bd0dd5bb21749ab2f100342653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 16/19] fix: rendering a node as DOT reads its graph in one
 piece

An alternative added to a reachable node by another thread between two of the
locks taken by to_dot showed as an edge to a vertex that is not shown.
---
 src/parsers/tree.rs | 47 +++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/parsers/tree.rs b/src/parsers/tree.rs
index decb64a..c49a040 100644
--- a/src/parsers/tree.rs
+++ b/src/parsers/tree.rs
@@ -581,32 +581,41 @@ enum DotNode {
 
 fn collect_nodes_and_alts<T, AK, V: Ord>(
   node: &Node<T, AK, V>,
-) -> (Vec<usize>, Vec<usize>)
+) -> (Vec<(usize, BTreeSet<usize>)>, Vec<usize>)
 where
   T: Ord,
   AK: Ord,
 {
-  let handle = node.handle();
+  // All nodes are read under one lock: other threads may add alternatives to
+  // them between two locks.
+  node
+    .handle()
+    .with(|inner| collect_inner_nodes_and_alts(inner, node.index))
+}
 
+fn collect_inner_nodes_and_alts<T, AK, V>(
+  inner: &Inner<T, AK, V>,
+  root_node: usize,
+) -> (Vec<(usize, BTreeSet<usize>)>, Vec<usize>) {
   let mut seen = BTreeSet::new();
   let mut curr = BTreeSet::new();
   let mut next = BTreeSet::new();
 
-  seen.insert(DotNode::Node(node.index));
-  curr.insert(DotNode::Node(node.index));
+  seen.insert(DotNode::Node(root_node));
+  curr.insert(DotNode::Node(root_node));
 
   while !curr.is_empty() {
     for curr_item in &curr {
       match curr_item {
-        DotNode::Node(node_id) => handle.with(|inner| {
+        DotNode::Node(node_id) => {
           let node_data = inner.get_node(*node_id);
           for alt_id in &node_data.alternatives {
             if seen.insert(DotNode::Alt(*alt_id)) {
               next.insert(DotNode::Alt(*alt_id));
             }
           }
-        }),
-        DotNode::Alt(alt_id) => handle.with(|inner| {
+        }
+        DotNode::Alt(alt_id) => {
           if let NodeContentInner::Branch(branch_data) = inner.get_alt(*alt_id)
           {
             for node_id in &branch_data.nodes {
@@ -615,7 +624,7 @@ where
               }
             }
           }
-        }),
+        }
       }
     }
 
@@ -628,7 +637,9 @@ where
 
   for item in seen {
     match item {
-      DotNode::Node(node_id) => nodes.push(node_id),
+      DotNode::Node(node_id) => {
+        nodes.push((node_id, inner.get_node(node_id).alternatives.clone()))
+      }
       DotNode::Alt(alt_id) => alts.push(alt_id),
     }
   }
@@ -637,7 +648,7 @@ where
 
 struct DotPrinter<'a, T, AK, V> {
   handle: TreeHandle<'a, T, AK, V>,
-  nodes: Vec<usize>,
+  nodes: Vec<(usize, BTreeSet<usize>)>,
   alts: Vec<usize>,
   root_node: usize,
 }
@@ -673,22 +684,16 @@ where
     self
       .nodes
       .iter()
-      .copied()
-      .map(DotNode::Node)
+      .map(|(node_id, _)| DotNode::Node(*node_id))
       .chain(self.alts.iter().copied().map(DotNode::Alt))
       .collect()
   }
 
   fn edges(&'a self) -> dot::Edges<'a, DotEdge> {
-    let node_edges = self.nodes.iter().copied().flat_map(|node_id| {
-      self.handle.with(|i| {
-        i.get_node(node_id)
-          .alternatives
-          .iter()
-          .copied()
-          .map(|alt_id| (DotNode::Node(node_id), DotNode::Alt(alt_id)))
-          .collect::<Vec<_>>()
-      })
+    let node_edges = self.nodes.iter().flat_map(|(node_id, alt_ids)| {
+      alt_ids
+        .iter()
+        .map(move |alt_id| (DotNode::Node(*node_id), DotNode::Alt(*alt_id)))
     });
 
     let alt_edges = self.alts.iter().copied().flat_map(|alt_id| {
-- 
2.43.0


From 2456752dbc95527a842c4c15d6820b3f1ca5a554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:26 +0000
Subject: [PATCH 17/19] fix: an element far behind a positioned production is
 absent, not an overflow

---
 src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 9f495cb..8b2fd71 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -90,7 +90,7 @@ impl<'a, T, NT, AK, AV> ProdState<'a, T, NT, AK, AV> {
   }
 
   pub fn offset_prod_elem(&self, i: usize) -> Option<&'a ProdElement<T, NT>> {
-    self.prod.prod_elements().get(self.index + i)
+    self.prod.prod_elements()[self.index..].get(i)
   }
 
   pub fn offset_elem(&self, i: usize) -> Option<&'a Elem<T, NT>> {
-- 
2.43.0


From 0812b7bcf5b399dc80461e54d40180b4d20ecb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:42 +0000
Subject: [PATCH 18/19] Verification hook behind cfg(bongo_verif): mutexes,
 atomics and tried locks report to the scheduler

---
 src/parsers/earley.rs       |   4 +
 src/parsers/earley/state.rs |   4 +
 src/parsers/mod.rs          |   4 +
 src/parsers/tree.rs         |   7 +-
 src/verif_sync.rs           | 361 +++++++++++++++++++++++++++---------
 5 files changed, 292 insertions(+), 88 deletions(-)

diff --git a/src/parsers/earley.rs b/src/parsers/earley.rs
index 1d0e7b0..560bf87 100644
--- a/src/parsers/earley.rs
+++ b/src/parsers/earley.rs
@@ -19,6 +19,10 @@
 
 mod state;
 
+#[cfg(bongo_verif = "sync")]
+#[allow(unused_imports)]
+use crate::verif_sync::std_with_hooks as std;
+
 use {
   crate::{
     parsers::{
diff --git a/src/parsers/earley/state.rs b/src/parsers/earley/state.rs
index 72cb7db..5c570d0 100644
--- a/src/parsers/earley/state.rs
+++ b/src/parsers/earley/state.rs
@@ -21,6 +21,10 @@ use {
   std::collections::BTreeMap,
 };
 
+#[cfg(bongo_verif = "sync")]
+#[allow(unused_imports)]
+use crate::verif_sync::std_with_hooks as std;
+
 #[derive(Derivative)]
 #[derivative(
   Clone(bound = ""),
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index a72b8ed..2c55a12 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -14,6 +14,10 @@
 
 use std::sync::Arc;
 
+#[cfg(bongo_verif = "sync")]
+#[allow(unused_imports)]
+use crate::verif_sync::std_with_hooks as std;
+
 pub mod earley;
 pub mod lalr;
 pub mod tree;
diff --git a/src/parsers/tree.rs b/src/parsers/tree.rs
index c49a040..dc85fa2 100644
--- a/src/parsers/tree.rs
+++ b/src/parsers/tree.rs
@@ -12,15 +12,16 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-#[cfg(bongo_verif = "sync")]
-use crate::verif_sync::{Arc, RwLock};
-#[cfg(not(bongo_verif = "sync"))]
 use std::sync::{Arc, RwLock};
 
 use crate::utils::{change_iter, WasChanged};
 use im::Vector;
 use std::collections::{BTreeMap, BTreeSet};
 
+#[cfg(bongo_verif = "sync")]
+#[allow(unused_imports)]
+use crate::verif_sync::std_with_hooks as std;
+
 // Function to help compare raw reference pointers, instead of contents.
 fn cmp_raw_refs<T>(a: &T, b: &T) -> std::cmp::Ordering {
   let a_raw = a as *const T;
diff --git a/src/verif_sync.rs b/src/verif_sync.rs
index 68976a4..1e0217d 100644
--- a/src/verif_sync.rs
+++ b/src/verif_sync.rs
@@ -12,54 +12,147 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-//! Replacement of `std::sync` for verification: a reader-writer lock that asks
-//! a scheduler before it is taken.
+//! Replacement of `std::sync` for verification: everything that threads can
+//! meet at reports to a scheduler.
 
 use std::ops::{Deref, DerefMut};
-pub use std::sync::Arc;
-use std::sync::{self, LockResult, OnceLock, PoisonError};
+use std::sync::{self as real, LockResult, PoisonError};
 use std::sync::{TryLockError, TryLockResult};
 
+// What is not replaced below.
+pub use std::sync::*;
+
 #[derive(Clone, Copy, PartialEq, Eq, Debug)]
 pub enum Event {
   /// A thread wants to take the lock. The hook returns when it may.
   Read,
   Write,
+  /// It has taken it.
+  Taken,
   /// A thread is about to try taking the lock.
   Try,
-  /// Trying succeeded.
+  /// Trying succeeded, or not.
   TriedRead,
   TriedWrite,
+  Failed,
   /// The lock was released.
   ReadDone,
   WriteDone,
+  /// A thread is about to use an atomic.
+  Atomic,
 }
 
-/// Called with the address of the lock.
+/// Called with the address of the lock or atomic.
 pub type Hook = fn(usize, Event);
 
-static HOOK: OnceLock<Hook> = OnceLock::new();
+static HOOK: real::OnceLock<Hook> = real::OnceLock::new();
 
 /// Installs the scheduler, once.
 pub fn set_hook(hook: Hook) {
   let _ = HOOK.set(hook);
 }
 
-fn event(lock: usize, event: Event) {
+fn event(at: usize, event: Event) {
   if let Some(hook) = HOOK.get() {
-    hook(lock, event);
+    hook(at, event);
+  }
+}
+
+/// Reports the release of a lock when dropped.
+struct Release(usize, Event);
+
+impl Drop for Release {
+  fn drop(&mut self) {
+    event(self.0, self.1);
+  }
+}
+
+// The guards release the inner lock before they report it: fields are dropped
+// in the order of declaration.
+
+pub struct Guard<G> {
+  guard: G,
+  #[allow(dead_code)]
+  lock: Release,
+}
+
+impl<G: Deref> Deref for Guard<G> {
+  type Target = G::Target;
+  fn deref(&self) -> &G::Target {
+    &self.guard
+  }
+}
+
+impl<G: DerefMut> DerefMut for Guard<G> {
+  fn deref_mut(&mut self) -> &mut G::Target {
+    &mut self.guard
+  }
+}
+
+impl<G: std::fmt::Debug> std::fmt::Debug for Guard<G> {
+  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
+    self.guard.fmt(f)
+  }
+}
+
+pub type RwLockReadGuard<'a, T> = Guard<real::RwLockReadGuard<'a, T>>;
+pub type RwLockWriteGuard<'a, T> = Guard<real::RwLockWriteGuard<'a, T>>;
+pub type MutexGuard<'a, T> = Guard<real::MutexGuard<'a, T>>;
+
+/// Takes a lock when the scheduler says it is free.
+fn take<G>(
+  id: usize,
+  (before, after): (Event, Event),
+  take: impl FnOnce() -> TryLockResult<G>,
+) -> LockResult<Guard<G>> {
+  event(id, before);
+  let lock = Release(id, after);
+  let taken = take();
+  event(id, Event::Taken);
+  match taken {
+    Ok(guard) => Ok(Guard { guard, lock }),
+    Err(TryLockError::Poisoned(e)) => {
+      let guard = e.into_inner();
+      Err(PoisonError::new(Guard { guard, lock }))
+    }
+    Err(TryLockError::WouldBlock) => panic!("the lock is not free"),
+  }
+}
+
+/// Takes a lock if it is free.
+fn attempt<G>(
+  id: usize,
+  (after, done): (Event, Event),
+  take: impl FnOnce() -> TryLockResult<G>,
+) -> TryLockResult<Guard<G>> {
+  event(id, Event::Try);
+  let taken = |guard| {
+    event(id, after);
+    let lock = Release(id, done);
+    event(id, Event::Taken);
+    Guard { guard, lock }
+  };
+  match take() {
+    Ok(guard) => Ok(taken(guard)),
+    Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(
+      PoisonError::new(taken(e.into_inner())),
+    )),
+    Err(TryLockError::WouldBlock) => {
+      event(id, Event::Failed);
+      Err(TryLockError::WouldBlock)
+    }
   }
 }
 
 #[derive(Debug, Default)]
 pub struct RwLock<T> {
-  inner: sync::RwLock<T>,
+  inner: real::RwLock<T>,
 }
 
 impl<T> RwLock<T> {
-  pub fn new(value: T) -> Self {
+  pub const fn new(value: T) -> Self {
     RwLock {
-      inner: sync::RwLock::new(value),
+      inner: real::RwLock::new(value),
     }
   }
 
@@ -68,67 +161,37 @@ impl<T> RwLock<T> {
   }
 
   pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
-    event(self.id(), Event::Read);
-    let lock = Release(self.id(), Event::ReadDone);
-    match self.inner.try_read() {
-      Ok(guard) => Ok(RwLockReadGuard { guard, lock }),
-      Err(TryLockError::Poisoned(e)) => {
-        let guard = e.into_inner();
-        Err(PoisonError::new(RwLockReadGuard { guard, lock }))
-      }
-      Err(TryLockError::WouldBlock) => panic!("the lock is not free"),
-    }
+    take(self.id(), (Event::Read, Event::ReadDone), || {
+      self.inner.try_read()
+    })
   }
 
   pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
-    event(self.id(), Event::Write);
-    let lock = Release(self.id(), Event::WriteDone);
-    match self.inner.try_write() {
-      Ok(guard) => Ok(RwLockWriteGuard { guard, lock }),
-      Err(TryLockError::Poisoned(e)) => {
-        let guard = e.into_inner();
-        Err(PoisonError::new(RwLockWriteGuard { guard, lock }))
-      }
-      Err(TryLockError::WouldBlock) => panic!("the lock is not free"),
-    }
+    take(self.id(), (Event::Write, Event::WriteDone), || {
+      self.inner.try_write()
+    })
   }
 
   pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
-    event(self.id(), Event::Try);
-    let taken = |guard| {
-      event(self.id(), Event::TriedRead);
-      let lock = Release(self.id(), Event::ReadDone);
-      RwLockReadGuard { guard, lock }
-    };
-    match self.inner.try_read() {
-      Ok(guard) => Ok(taken(guard)),
-      Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(
-        PoisonError::new(taken(e.into_inner())),
-      )),
-      Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
-    }
+    attempt(self.id(), (Event::TriedRead, Event::ReadDone), || {
+      self.inner.try_read()
+    })
   }
 
   pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
-    event(self.id(), Event::Try);
-    let taken = |guard| {
-      event(self.id(), Event::TriedWrite);
-      let lock = Release(self.id(), Event::WriteDone);
-      RwLockWriteGuard { guard, lock }
-    };
-    match self.inner.try_write() {
-      Ok(guard) => Ok(taken(guard)),
-      Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(
-        PoisonError::new(taken(e.into_inner())),
-      )),
-      Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
-    }
+    attempt(self.id(), (Event::TriedWrite, Event::WriteDone), || {
+      self.inner.try_write()
+    })
   }
 
   pub fn is_poisoned(&self) -> bool {
     self.inner.is_poisoned()
   }
 
+  pub fn clear_poison(&self) {
+    self.inner.clear_poison()
+  }
+
   pub fn get_mut(&mut self) -> LockResult<&mut T> {
     self.inner.get_mut()
   }
@@ -138,46 +201,174 @@ impl<T> RwLock<T> {
   }
 }
 
-/// Reports the release of a lock when dropped.
-struct Release(usize, Event);
-
-impl Drop for Release {
-  fn drop(&mut self) {
-    event(self.0, self.1);
+impl<T> From<T> for RwLock<T> {
+  fn from(value: T) -> Self {
+    RwLock::new(value)
   }
 }
 
-// The guards release the inner lock before they report it: fields are dropped
-// in the order of declaration.
+#[derive(Debug, Default)]
+pub struct Mutex<T> {
+  inner: real::Mutex<T>,
+}
 
-pub struct RwLockReadGuard<'a, T> {
-  guard: sync::RwLockReadGuard<'a, T>,
-  #[allow(dead_code)]
-  lock: Release,
+impl<T> Mutex<T> {
+  pub const fn new(value: T) -> Self {
+    Mutex {
+      inner: real::Mutex::new(value),
+    }
+  }
+
+  fn id(&self) -> usize {
+    self as *const Self as usize
+  }
+
+  pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+    take(self.id(), (Event::Write, Event::WriteDone), || {
+      self.inner.try_lock()
+    })
+  }
+
+  pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+    attempt(self.id(), (Event::TriedWrite, Event::WriteDone), || {
+      self.inner.try_lock()
+    })
+  }
+
+  pub fn is_poisoned(&self) -> bool {
+    self.inner.is_poisoned()
+  }
+
+  pub fn clear_poison(&self) {
+    self.inner.clear_poison()
+  }
+
+  pub fn get_mut(&mut self) -> LockResult<&mut T> {
+    self.inner.get_mut()
+  }
+
+  pub fn into_inner(self) -> LockResult<T> {
+    self.inner.into_inner()
+  }
 }
 
-impl<T> Deref for RwLockReadGuard<'_, T> {
-  type Target = T;
-  fn deref(&self) -> &T {
-    &self.guard
+impl<T> From<T> for Mutex<T> {
+  fn from(value: T) -> Self {
+    Mutex::new(value)
   }
 }
 
-pub struct RwLockWriteGuard<'a, T> {
-  guard: sync::RwLockWriteGuard<'a, T>,
-  #[allow(dead_code)]
-  lock: Release,
+#[derive(Debug, Default)]
+pub struct OnceLock<T> {
+  inner: real::OnceLock<T>,
+  making: Mutex<()>,
 }
 
-impl<T> Deref for RwLockWriteGuard<'_, T> {
-  type Target = T;
-  fn deref(&self) -> &T {
-    &self.guard
+impl<T> OnceLock<T> {
+  pub const fn new() -> Self {
+    OnceLock {
+      inner: real::OnceLock::new(),
+      making: Mutex::new(()),
+    }
+  }
+
+  pub fn get(&self) -> Option<&T> {
+    event(self as *const Self as usize, Event::Atomic);
+    self.inner.get()
+  }
+
+  pub fn get_mut(&mut self) -> Option<&mut T> {
+    self.inner.get_mut()
+  }
+
+  pub fn set(&self, value: T) -> Result<(), T> {
+    let _making = self.making.lock().unwrap_or_else(|e| e.into_inner());
+    self.inner.set(value)
+  }
+
+  pub fn get_or_init<F: FnOnce() -> T>(&self, make: F) -> &T {
+    if self.get().is_none() {
+      let _making = self.making.lock().unwrap_or_else(|e| e.into_inner());
+      if self.inner.get().is_none() {
+        let _ = self.inner.set(make());
+      }
+    }
+    self.inner.get().unwrap()
+  }
+
+  pub fn into_inner(self) -> Option<T> {
+    self.inner.into_inner()
+  }
+
+  pub fn take(&mut self) -> Option<T> {
+    self.inner.take()
   }
 }
 
-impl<T> DerefMut for RwLockWriteGuard<'_, T> {
-  fn deref_mut(&mut self) -> &mut T {
-    &mut self.guard
+/// Atomics.  Only orders of whole operations are explored, not the weaker ones
+/// a processor may show.
+pub mod atomic {
+  use super::{event, Event};
+  use std::ops::{Deref, DerefMut};
+  use std::sync::atomic as real;
+
+  pub use std::sync::atomic::*;
+
+  macro_rules! atomics {
+    ($($name:ident($value:ty)),*) => {$(
+      #[derive(Debug, Default)]
+      pub struct $name(real::$name);
+
+      impl $name {
+        pub const fn new(value: $value) -> Self {
+          $name(real::$name::new(value))
+        }
+
+        pub fn into_inner(self) -> $value {
+          self.0.into_inner()
+        }
+      }
+
+      // Every operation gets to the atomic through here.
+      impl Deref for $name {
+        type Target = real::$name;
+        fn deref(&self) -> &real::$name {
+          event(self as *const Self as usize, Event::Atomic);
+          &self.0
+        }
+      }
+
+      impl DerefMut for $name {
+        fn deref_mut(&mut self) -> &mut real::$name {
+          &mut self.0
+        }
+      }
+
+      impl From<$value> for $name {
+        fn from(value: $value) -> Self {
+          $name::new(value)
+        }
+      }
+    )*};
   }
+
+  atomics! {
+    AtomicBool(bool),
+    AtomicUsize(usize),
+    AtomicIsize(isize),
+    AtomicU64(u64),
+    AtomicI64(i64),
+    AtomicU32(u32),
+    AtomicI32(i32),
+    AtomicU16(u16),
+    AtomicI16(i16),
+    AtomicU8(u8),
+    AtomicI8(i8)
+  }
+}
+
+/// `std` with this module as its `sync`.
+pub mod std_with_hooks {
+  pub use crate::verif_sync as sync;
+  pub use std::*;
 }
-- 
2.43.0


From 0f9e99fce553289fdee5d7764c3edfcf8c055bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:42 +0000
Subject: [PATCH 19/19] Verification hook: every name of std::sync stays
 reachable

---
 src/verif_sync.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/verif_sync.rs b/src/verif_sync.rs
index 1e0217d..f2f75f3 100644
--- a/src/verif_sync.rs
+++ b/src/verif_sync.rs
@@ -16,8 +16,7 @@
 //! meet at reports to a scheduler.
 
 use std::ops::{Deref, DerefMut};
-use std::sync::{self as real, LockResult, PoisonError};
-use std::sync::{TryLockError, TryLockResult};
+use std::sync as real;
 
 // What is not replaced below.
 pub use std::sync::*;
-- 
2.43.0

