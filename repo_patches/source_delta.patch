From 0b35ecad6b9b0482bf8a7e1bc95bad3f95247ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:24 +0000
Subject: [PATCH 01/12] fix: FIRST sets of mutually left-recursive rules

A non-terminal was replaced by its FIRST set at every step, so a cycle of three
rules (A = B x, B = C y, C = A z) rotated for ever, or settled with
non-terminals in FIRST. Keep the non-terminals while iterating and drop them
once the sets are stable.
---
 src/tabler.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tabler.rs b/src/tabler.rs
index 8af2215..0f836a4 100644
--- a/src/tabler.rs
+++ b/src/tabler.rs
@@ -102,6 +102,10 @@ where
 
     pub fn proc_first(&mut self) {
         self.first = transitive(self.first.clone(), |t| self.first_step(&t));
+        let grammar = &self.grammar;
+        self.first
+            .values_mut()
+            .for_each(|set| set.retain(|t| grammar.is_terminal(t)));
         // FIRST must be a subset of TERMINALS
         debug_assert!(self
             .first
@@ -131,6 +135,8 @@ where
                 if self.grammar.is_terminal(first) {
                     table.get_mut(name).unwrap().insert(first.clone());
                 } else {
+                    // keeps the non-terminal, otherwise a cycle of left recursions never settles
+                    table.get_mut(name).unwrap().insert(first.clone());
                     table.get_mut(name).unwrap().extend(
                         input
                             .get(first)
-- 
2.43.0


From e5ea44781cb1bc0b6148fdacfce255d67990df2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:24 +0000
Subject: [PATCH 02/12] fix: FOLLOW sets of mutually right-recursive rules

As for FIRST: replacing a non-terminal by its FOLLOW set at every step never
settled when three rules end with each other. Keep the non-terminals while
iterating and drop them once the sets are stable.
---
 src/tabler.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tabler.rs b/src/tabler.rs
index 0f836a4..ff26b8c 100644
--- a/src/tabler.rs
+++ b/src/tabler.rs
@@ -116,6 +116,10 @@ where
 
     pub fn proc_follow(&mut self) {
         self.follow = transitive(self.follow.clone(), |t| self.follow_step(&t));
+        let grammar = &self.grammar;
+        self.follow
+            .values_mut()
+            .for_each(|set| set.retain(|t| grammar.is_terminal(t)));
         // FOLLOW must be a subset of TERMINALS
         debug_assert!(self
             .follow
@@ -165,8 +169,12 @@ where
                 let entry = table.get_mut(noterm).unwrap();
                 if self.grammar.is_terminal(term) {
                     entry.insert(term.clone());
-                } else if let Some(set) = input.get(term) {
-                    entry.extend(set.clone());
+                } else {
+                    // keeps the non-terminal, otherwise a cycle of right recursions never settles
+                    entry.insert(term.clone());
+                    if let Some(set) = input.get(term) {
+                        entry.extend(set.clone());
+                    }
                 }
             }
             if table[noterm].contains(noterm) {
-- 
2.43.0


From 6048e85bef1b7441c7fd21259f95a25d8e0fa14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:24 +0000
Subject: [PATCH 03/12] fix: keep the initial state on Dfa::reset

reset left the states stack empty while new starts it at [0], so Dfa::parse
underflowed the stack at the first reduction back to the initial state.
---
 src/dfa.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dfa.rs b/src/dfa.rs
index 5b5a853..aaebeb4 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -214,6 +214,7 @@ where
     pub fn reset(&mut self) {
         self.finished = false;
         self.states.clear();
+        self.states.push(0);
         self.items.clear();
         self.top = 0;
     }
-- 
2.43.0


From afe939ec1e6958864844b4fd3a859cbfb25c2d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:54 +0000
Subject: [PATCH 04/12] fix: propagate LALR lookaheads through the closure
 items

When a state merged with new lookaheads, update_closures only followed the
transitions of its kernel items, so states reached through its closure items
kept stale lookaheads and valid sentences were rejected. Expand again any
already expanded state whose lookaheads grow.
---
 src/lalr.rs | 42 +++++-------------------------------------
 1 file changed, 5 insertions(+), 37 deletions(-)

diff --git a/src/lalr.rs b/src/lalr.rs
index ea8daad..57cb3d3 100644
--- a/src/lalr.rs
+++ b/src/lalr.rs
@@ -126,10 +126,13 @@ where
                 };
                 let raw_kernel = Self::without_look(&kernel);
                 if let Some(main_kernel) = self.raws.get(&raw_kernel).cloned() {
-                    let Some(nk) = self.update_closures(&main_kernel, kernel, closures) else {
+                    let Some(nk) = self.update_state(&main_kernel, kernel, closures) else {
                         continue;
                     };
-                    if self.table.kernels[&nk] == idx && nk != row {
+                    // New lookaheads must reach the successors of an already expanded state
+                    let updated = self.table.kernels[&nk];
+                    if updated <= idx {
+                        idx = updated;
                         continue 'gen;
                     }
                 } else {
@@ -146,41 +149,6 @@ where
         }
     }
 
-    #[must_use]
-    pub fn update_closures(
-        &mut self,
-        main: &State<T>,
-        inc: State<T>,
-        closures: State<T>,
-    ) -> Option<State<T>> {
-        let mut new_kernel = self.update_state(main, inc, closures)?;
-        let syms: Vec<_> = self.table.grammar.symbols().collect();
-        let id = self.table.kernels[&new_kernel];
-
-        'regen: loop {
-            for s in &syms {
-                let Some((kernel, closures)) = self.goto(&new_kernel, s) else {
-                    continue;
-                };
-                let raw_kernel = Self::without_look(&kernel);
-                let main_kernel = self.raws.get(&raw_kernel).cloned();
-                let Some(main_kernel) = main_kernel else {
-                    continue;
-                };
-                let Some(nk) = self.update_closures(&main_kernel, kernel, closures) else {
-                    continue;
-                };
-                let updated_state = self.table.kernels[&nk];
-                if updated_state == id && nk != new_kernel {
-                    new_kernel = nk;
-                    continue 'regen;
-                }
-            }
-            break;
-        }
-        Some(new_kernel)
-    }
-
     #[must_use]
     pub fn update_state(
         &mut self,
-- 
2.43.0


From 4590cb40d5a5da1fecfb6c0f714384f90be5cb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:13 +0000
Subject: [PATCH 05/12] fix: list only tokens as expected after an unexpected
 one

The expected list of Error::UnexpectedToken also held the non-terminals of the
state's goto entries, which no input token can be.
---
 src/dfa.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dfa.rs b/src/dfa.rs
index aaebeb4..6ab63db 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -172,7 +172,11 @@ where
     pub fn travel(&mut self, symbol: &M) -> BaseResult<(), Error<M>> {
         let state = self.table.get(self.top).ok_or(Error::StateNotSpecified)?;
         let action = state.get(symbol).ok_or_else(|| {
-            let expecteds = state.keys().cloned().collect();
+            let expecteds = state
+                .iter()
+                .filter(|(_, act)| !matches!(act, Action::Goto(_)))
+                .map(|(sym, _)| sym.clone())
+                .collect();
             Error::UnexpectedToken(symbol.clone(), expecteds)
         })?;
         match action {
-- 
2.43.0


From e6623eb17f89b35164f6a8e78eeff1884cb63a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:14 +0000
Subject: [PATCH 06/12] fix: reject an input token that names a non-terminal

Such a token followed the goto entry of its rule, which pushes a state and
consumes nothing, so L = C L | C looped for ever on the token C.
---
 src/dfa.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/dfa.rs b/src/dfa.rs
index 6ab63db..33abda7 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -152,6 +152,13 @@ where
                 .peek()
                 .map_or_else(|| &self.eof, |t| &t.ty)
                 .clone();
+            // The entries of non-terminals are for reductions: following one for an input token
+            // pushes states without consuming it
+            if let Some(state) = self.table.get(self.top) {
+                if matches!(state.get(&symbol), Some(Action::Goto(_))) {
+                    return Err(Self::unexpected(state, &symbol));
+                }
+            }
             self.travel(&symbol)?;
         }
         Ok(())
@@ -165,20 +172,24 @@ where
         Ok(())
     }
 
+    fn unexpected(state: &Map<M, Action<M>>, symbol: &M) -> Error<M> {
+        let expecteds = state
+            .iter()
+            .filter(|(_, act)| !matches!(act, Action::Goto(_)))
+            .map(|(sym, _)| sym.clone())
+            .collect();
+        Error::UnexpectedToken(symbol.clone(), expecteds)
+    }
+
     /// # Errors
     /// If the current state don't exists in actions table, raises an `Error::StateNotSpecified`
     /// If there isn't an action in current state for `symbol`, raises an `Error::UnexpectedToken`
     /// Returns the action result
     pub fn travel(&mut self, symbol: &M) -> BaseResult<(), Error<M>> {
         let state = self.table.get(self.top).ok_or(Error::StateNotSpecified)?;
-        let action = state.get(symbol).ok_or_else(|| {
-            let expecteds = state
-                .iter()
-                .filter(|(_, act)| !matches!(act, Action::Goto(_)))
-                .map(|(sym, _)| sym.clone())
-                .collect();
-            Error::UnexpectedToken(symbol.clone(), expecteds)
-        })?;
+        let action = state
+            .get(symbol)
+            .ok_or_else(|| Self::unexpected(state, symbol))?;
         match action {
             Action::Shift(to) => self.shift(*to),
             Action::Goto(to) => self.goto(*to),
-- 
2.43.0


From 27bcb980910e1a74f1cdf1917a3633d5f73bc39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:24 +0000
Subject: [PATCH 07/12] fix: wop: a block comment ends at its first */ (/***/
 and /* x **/ did not lex)

---
 wop/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wop/src/lib.rs b/wop/src/lib.rs
index 60489d5..203c71c 100644
--- a/wop/src/lib.rs
+++ b/wop/src/lib.rs
@@ -83,7 +83,7 @@ pub enum Sym {
     StrLit,
 
     /// Block comment
-    #[regex(r#"/\*([^\*]|\*[^//])*\*/"#, logos::skip)]
+    #[regex(r#"/\*[^\*]*\*+([^\*/][^\*]*\*+)*/"#, logos::skip)]
     BlockComment,
 
     /// Line comment
-- 
2.43.0


From f2f5e46471a2c7c494df8ee74149bde07ee15038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:24 +0000
Subject: [PATCH 08/12] fix: wop: a code block ends at its first }% (one ending
 in }}% ran into the next)

---
 wop/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wop/src/lib.rs b/wop/src/lib.rs
index 203c71c..e968a3f 100644
--- a/wop/src/lib.rs
+++ b/wop/src/lib.rs
@@ -91,7 +91,7 @@ pub enum Sym {
     LineComment,
 
     /// Matches a entire function tail definition: arrow ("->"), return type and a expression
-    #[regex(r#"(->)([^\}]|\}[^%])*\}%"#)]
+    #[regex(r#"->[^\}]*\}+([^\}%][^\}]*\}+)*%"#)]
     CodeBlock,
 
     #[error]
-- 
2.43.0


From 54524876e9cf2d4a0c024adeeb65495ee174bab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:24 +0000
Subject: [PATCH 09/12] fix: wop: an absent alias inside a group was bound to
 another token (every alias was taken as cloned)

---
 wop/src/builder.rs |  3 ++-
 wop/src/out.rs     | 24 ++++++++++++++++++------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index 18b1236..e11a95b 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -276,7 +276,8 @@ impl Builder {
                     .iter_mut()
                     .find(|a| a.alias.from_source(src) == alias_name.from_source(src))
                 {
-                    prod_alias.optional = Some(true);
+                    // an alias already known to be absent here stays so
+                    prod_alias.optional.get_or_insert(true);
                 } else {
                     let item_alias = ItemAlias {
                         alias: **alias_name,
diff --git a/wop/src/out.rs b/wop/src/out.rs
index 324c40b..823afde 100644
--- a/wop/src/out.rs
+++ b/wop/src/out.rs
@@ -148,7 +148,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
             {
                 let item = Some(toks[0].clone());
                 let opt = Some(toks[1].clone());
-                let cl = Some(toks[3].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[3].clone());
                 {
                     Ast::RuleItem(
@@ -213,7 +215,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
                 let mut opt = Some(toks[0].clone());
                 opt = None;
                 let opt = opt;
-                let cl = Some(toks[2].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[2].clone());
                 {
                     Ast::RuleItem(
@@ -276,7 +280,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
             {
                 let item = Some(toks[0].clone());
                 let opt = Some(toks[1].clone());
-                let cl = Some(toks[3].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[3].clone());
                 {
                     Ast::RuleItem(
@@ -341,7 +347,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
                 let mut opt = Some(toks[0].clone());
                 opt = None;
                 let opt = opt;
-                let cl = Some(toks[2].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[2].clone());
                 {
                     Ast::RuleItem(
@@ -404,7 +412,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
             {
                 let rule = toks[1].clone();
                 let opt = Some(toks[3].clone());
-                let cl = Some(toks[5].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[5].clone());
                 {
                     Ast::RuleItem(
@@ -469,7 +479,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
                 let mut opt = Some(toks[0].clone());
                 opt = None;
                 let opt = opt;
-                let cl = Some(toks[4].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[4].clone());
                 {
                     Ast::RuleItem(
-- 
2.43.0


From 5e671b3b4dfbf8adfbd785118d148d19ae6edb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:24 +0000
Subject: [PATCH 10/12] fix: wop: the range of an alias on a group counts
 symbols, not items

---
 wop/src/builder.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index e11a95b..856ae5e 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -205,11 +205,16 @@ impl Builder {
                                 "sub-rules like {} shouldn't have a codeblock",
                                 g.item.span.from_source(src)
                             );
+                            let mut news = self.get_from_single_production(&prod, variant, src);
                             if alias.is_some() {
-                                prod.aliases.last_mut().unwrap().final_index =
-                                    Some(prod.production.len() + variant.len());
+                                // the group's alias is the last one of `prod`, and each expansion
+                                // of `variant` may have its own length
+                                let group_alias = prod.aliases.len() - 1;
+                                for new in &mut news {
+                                    new.aliases[group_alias].final_index =
+                                        Some(new.production.len());
+                                }
                             }
-                            let news = self.get_from_single_production(&prod, variant, src);
                             prods.extend(news);
                         }
                         self.set_sub_aliases(&prod, &mut prods, src);
-- 
2.43.0


From d401d6e48fc1a706df751a7970a5defd1092e203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:24 +0000
Subject: [PATCH 11/12] fix: wop: an absent alias keeps the type it has where
 present

---
 wop/src/builder.rs | 47 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index 856ae5e..1d53855 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -49,6 +49,17 @@ impl ProductionBuild {
 
 pub type RuleBuild = Vec<ProductionBuild>;
 impl ItemAlias {
+    /// The same alias, of the same type, for a production where its item is missing.
+    #[must_use]
+    pub fn absent(&self) -> Self {
+        Self {
+            optional: Some(false),
+            index: 0,
+            final_index: self.final_index.map(|_| 0),
+            ..*self
+        }
+    }
+
     pub fn dump(&self, src: &str) -> String {
         let mut s = String::new();
         self.write(&mut s, src).unwrap();
@@ -72,11 +83,12 @@ impl ItemAlias {
             Some(true) => writeln!(out, "let {alias} = Some({prefix}{index}{suffix});"),
             // since Rust can't infer the type of `{alias}` just with a `None`, and since they
             // aren't a real type declaration inside this struct, we bind the type from `toks[0]`
-            // and set to `None`. Also, it needs to be shadowed to prevent mutations.
+            // (or an empty range of it) and set to `None`. Also, it needs to be shadowed to prevent mutations.
             Some(false) => {
+                let index = self.final_index.map_or("0", |_| "0..0");
                 writeln!(
                     out,
-                    "let mut {alias} = Some({prefix}0{suffix}); {alias} = None; let {alias} = {alias};"
+                    "let mut {alias} = Some({prefix}{index}{suffix}); {alias} = None; let {alias} = {alias};"
                 )
             }
             None => writeln!(out, "let {alias} = {prefix}{index}{suffix};"),
@@ -221,20 +233,15 @@ impl Builder {
                         if is_optional {
                             let mut ignored_prod = prod.clone();
                             if alias.is_some() {
-                                ignored_prod.aliases.last_mut().unwrap().optional = Some(false);
+                                let group_alias = ignored_prod.aliases.last_mut().unwrap();
+                                group_alias.final_index = Some(group_alias.index);
+                                group_alias.optional = Some(false);
                             }
                             // after`self.set_sub_aliases` all prods follow the expression
                             // `prods[x].aliases.len() = prods[x + 1].aliases.len()`
                             for alias in &prods[0].aliases {
                                 if !ignored_prod.aliases.iter().any(|a| a.alias == alias.alias) {
-                                    let item_alias = ItemAlias {
-                                        alias: alias.alias,
-                                        optional: Some(false),
-                                        index: 0,
-                                        final_index: None,
-                                        clone,
-                                    };
-                                    ignored_prod.aliases.push(item_alias);
+                                    ignored_prod.aliases.push(alias.absent());
                                 }
                             }
                             prods.push(ignored_prod);
@@ -271,28 +278,20 @@ impl Builder {
         let prods_aliases: HashSet<_> = productions
             .iter()
             .flat_map(|a| a.aliases.iter())
-            .map(|a| a.alias)
+            .filter(|a| !base_aliases.contains(&a.alias))
+            .map(ItemAlias::absent)
             .collect();
-        let prods_aliases: HashSet<_> = prods_aliases.difference(&base_aliases).collect();
         for prod in productions.iter_mut() {
-            for alias_name in &prods_aliases {
+            for absent in &prods_aliases {
                 if let Some(prod_alias) = prod
                     .aliases
                     .iter_mut()
-                    .find(|a| a.alias.from_source(src) == alias_name.from_source(src))
+                    .find(|a| a.alias.from_source(src) == absent.alias.from_source(src))
                 {
                     // an alias already known to be absent here stays so
                     prod_alias.optional.get_or_insert(true);
                 } else {
-                    let item_alias = ItemAlias {
-                        alias: **alias_name,
-                        optional: Some(false),
-                        index: 0,
-                        // FIXME: Will it ALWAYS be nothing?
-                        final_index: None,
-                        clone: false,
-                    };
-                    prod.aliases.push(item_alias);
+                    prod.aliases.push(absent.clone());
                 }
             }
         }
-- 
2.43.0


From b411c46c2844390fc42b86d5cc387c487116c954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:40 +0000
Subject: [PATCH 12/12] fix: wop: a rule named by a path generated code that
 does not compile

---
 wop/src/builder.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index 1d53855..c2c6337 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -375,6 +375,8 @@ impl Builder {
         src: &str,
     ) {
         let ty = prods[0].ty.from_source(src);
+        // the rule may be named by a path, so its functions are scoped instead of named after it
+        writeln!(out, "\tmap.insert({name}, {{").unwrap();
         for (i, prod) in prods.iter().enumerate() {
             let mut item_aliases = String::new();
             for alias in &prod.aliases {
@@ -382,16 +384,16 @@ impl Builder {
             }
             writeln!(
                     out,
-                    "\tfn lrp_wop_{name}_{i}(toks: &[{entry_type}]) -> lrp::Meta<{ty}> {{\n\t\tlrp::Meta::new({{ {item_aliases} {}}}, lrp::Span::new(toks[0].item.span.start, toks.last().unwrap().item.span.end))\n\t}}",
+                    "\tfn lrp_wop_{i}(toks: &[{entry_type}]) -> lrp::Meta<{ty}> {{\n\t\tlrp::Meta::new({{ {item_aliases} {}}}, lrp::Span::new(toks[0].item.span.start, toks.last().unwrap().item.span.end))\n\t}}",
                     prod.codeblock.from_source(src).strip_prefix("->").unwrap().strip_suffix('%').unwrap()
                 )
                 .unwrap();
         }
-        write!(out, "\tmap.insert({name}, vec![").unwrap();
+        out.push_str("\tvec![");
         for (i, _) in prods.iter().enumerate() {
-            write!(out, "lrp_wop_{name}_{i}, ").unwrap();
+            write!(out, "lrp_wop_{i}, ").unwrap();
         }
-        out.push_str("\t]);\n\n");
+        out.push_str("\t]});\n\n");
     }
 }
 
-- 
2.43.0

