From ce1130c7833d63f57339d0de01f89f85a775aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 01/18] fix: keep the initial state on the stack when a Dfa is
 reset

Dfa::reset left the state stack empty, so Dfa::parse panicked on the first
reduction that exposes the bottom of the stack.
---
 src/dfa.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dfa.rs b/src/dfa.rs
index 5b5a853..aaebeb4 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -214,6 +214,7 @@ where
     pub fn reset(&mut self) {
         self.finished = false;
         self.states.clear();
+        self.states.push(0);
         self.items.clear();
         self.top = 0;
     }
-- 
2.43.0


From 12406e640f63cf073b9befbf143c2a1d814dda3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 02/18] fix: make the FIRST and FOLLOW iterations monotone

Replacing each non-terminal by its current set made the iteration oscillate
for ever on cycles of three or more non-terminals (e.g. indirect left
recursion A -> B a, B -> C c, C -> A d), so building a parser never returned.
---
 src/tabler.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/tabler.rs b/src/tabler.rs
index 8af2215..7161e8a 100644
--- a/src/tabler.rs
+++ b/src/tabler.rs
@@ -102,6 +102,10 @@ where
 
     pub fn proc_first(&mut self) {
         self.first = transitive(self.first.clone(), |t| self.first_step(&t));
+        // The steps keep the non-terminals, which must not appear in the final sets
+        for set in self.first.values_mut() {
+            set.retain(|t| self.grammar.is_terminal(t));
+        }
         // FIRST must be a subset of TERMINALS
         debug_assert!(self
             .first
@@ -112,6 +116,10 @@ where
 
     pub fn proc_follow(&mut self) {
         self.follow = transitive(self.follow.clone(), |t| self.follow_step(&t));
+        // The steps keep the non-terminals, which must not appear in the final sets
+        for set in self.follow.values_mut() {
+            set.retain(|t| self.grammar.is_terminal(t));
+        }
         // FOLLOW must be a subset of TERMINALS
         debug_assert!(self
             .follow
@@ -128,9 +136,8 @@ where
         for (name, firsts) in input {
             table.insert(name.clone(), Set::new());
             for first in firsts {
-                if self.grammar.is_terminal(first) {
-                    table.get_mut(name).unwrap().insert(first.clone());
-                } else {
+                table.get_mut(name).unwrap().insert(first.clone());
+                if !self.grammar.is_terminal(first) {
                     table.get_mut(name).unwrap().extend(
                         input
                             .get(first)
@@ -157,9 +164,8 @@ where
             table.insert(noterm.clone(), Set::new());
             for term in terms {
                 let entry = table.get_mut(noterm).unwrap();
-                if self.grammar.is_terminal(term) {
-                    entry.insert(term.clone());
-                } else if let Some(set) = input.get(term) {
+                entry.insert(term.clone());
+                if let Some(set) = input.get(term) {
                     entry.extend(set.clone());
                 }
             }
-- 
2.43.0


From bc88739989242022cecef7dfd04752e0cffe2c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:36 +0000
Subject: [PATCH 03/18] fix: propagate LALR lookaheads through every state
 until nothing changes

update_closures followed only the kernel items of a state whose lookaheads
grew, and states already processed were never revisited, so lookaheads were
lost and sentences of LALR(1) grammars were rejected.
---
 src/lalr.rs | 49 +++++++------------------------------------------
 1 file changed, 7 insertions(+), 42 deletions(-)

diff --git a/src/lalr.rs b/src/lalr.rs
index ea8daad..5560f8a 100644
--- a/src/lalr.rs
+++ b/src/lalr.rs
@@ -118,19 +118,19 @@ where
         self.proc_closures_first_row();
         let mut idx = 0;
         let syms: Vec<_> = self.table.grammar.symbols().collect();
-        'gen: while idx < self.table.states.len() {
+        while idx < self.table.states.len() {
             let row = self.table.states[idx].clone();
+            let mut next = idx + 1;
             for s in &syms {
                 let Some((kernel, closures)) = self.goto(&row, s) else {
                     continue;
                 };
                 let raw_kernel = Self::without_look(&kernel);
                 if let Some(main_kernel) = self.raws.get(&raw_kernel).cloned() {
-                    let Some(nk) = self.update_closures(&main_kernel, kernel, closures) else {
-                        continue;
-                    };
-                    if self.table.kernels[&nk] == idx && nk != row {
-                        continue 'gen;
+                    // A state that gained lookaheads must propagate them to its successors, even
+                    // if it was already processed.
+                    if let Some(nk) = self.update_state(&main_kernel, kernel, closures) {
+                        next = next.min(self.table.kernels[&nk]);
                     }
                 } else {
                     self.raws.insert(raw_kernel, kernel.clone());
@@ -142,45 +142,10 @@ where
                     debug_assert!(old.is_none());
                 };
             }
-            idx += 1;
+            idx = next;
         }
     }
 
-    #[must_use]
-    pub fn update_closures(
-        &mut self,
-        main: &State<T>,
-        inc: State<T>,
-        closures: State<T>,
-    ) -> Option<State<T>> {
-        let mut new_kernel = self.update_state(main, inc, closures)?;
-        let syms: Vec<_> = self.table.grammar.symbols().collect();
-        let id = self.table.kernels[&new_kernel];
-
-        'regen: loop {
-            for s in &syms {
-                let Some((kernel, closures)) = self.goto(&new_kernel, s) else {
-                    continue;
-                };
-                let raw_kernel = Self::without_look(&kernel);
-                let main_kernel = self.raws.get(&raw_kernel).cloned();
-                let Some(main_kernel) = main_kernel else {
-                    continue;
-                };
-                let Some(nk) = self.update_closures(&main_kernel, kernel, closures) else {
-                    continue;
-                };
-                let updated_state = self.table.kernels[&nk];
-                if updated_state == id && nk != new_kernel {
-                    new_kernel = nk;
-                    continue 'regen;
-                }
-            }
-            break;
-        }
-        Some(new_kernel)
-    }
-
     #[must_use]
     pub fn update_state(
         &mut self,
-- 
2.43.0


From c6ad3caf93b1f6b7ee7f87ddaf141e5c4335180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:32 +0000
Subject: [PATCH 04/18] fix: reject input tokens whose type is a non-terminal

Such a token executed the goto of its column without being consumed, so a
grammar with a right recursive list made the parser loop for ever (pushing
states) on it. Gotos are now taken only right after a reduction.
---
 src/dfa.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/dfa.rs b/src/dfa.rs
index aaebeb4..78fa11f 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -171,16 +171,16 @@ where
     /// Returns the action result
     pub fn travel(&mut self, symbol: &M) -> BaseResult<(), Error<M>> {
         let state = self.table.get(self.top).ok_or(Error::StateNotSpecified)?;
-        let action = state.get(symbol).ok_or_else(|| {
-            let expecteds = state.keys().cloned().collect();
-            Error::UnexpectedToken(symbol.clone(), expecteds)
-        })?;
-        match action {
-            Action::Shift(to) => self.shift(*to),
-            Action::Goto(to) => self.goto(*to),
-            Action::Reduce(name, prod) => self.reduce(&name.clone(), &prod.clone()),
-            Action::Acc => self.accept(),
-            Action::Conflict(a, b) => Err(Error::Conflict(*a.clone(), *b.clone())),
+        match state.get(symbol) {
+            Some(Action::Shift(to)) => self.shift(*to),
+            Some(Action::Reduce(name, prod)) => self.reduce(&name.clone(), &prod.clone()),
+            Some(Action::Acc) => self.accept(),
+            Some(Action::Conflict(a, b)) => Err(Error::Conflict(*a.clone(), *b.clone())),
+            // A goto consumes nothing: it's only taken after a reduction
+            Some(Action::Goto(_)) | None => {
+                let expecteds = state.keys().cloned().collect();
+                Err(Error::UnexpectedToken(symbol.clone(), expecteds))
+            }
         }
     }
 
@@ -208,7 +208,10 @@ where
         self.top = self.states[len - prod.0.len() - 1];
 
         self.states.truncate(len - prod.0.len());
-        self.travel(name)
+        match self.table.get(self.top).and_then(|row| row.get(name)) {
+            Some(Action::Goto(to)) => self.goto(*to),
+            _ => Err(Error::MissingPreviousState),
+        }
     }
 
     pub fn reset(&mut self) {
-- 
2.43.0


From 6f9e408770f09d8efa5016fc52ee8bb5d01db1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:32 +0000
Subject: [PATCH 05/18] fix: list only terminals as expected tokens

UnexpectedToken listed the goto columns (non-terminals) of the state too.
---
 src/dfa.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dfa.rs b/src/dfa.rs
index 78fa11f..50d6297 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -178,7 +178,11 @@ where
             Some(Action::Conflict(a, b)) => Err(Error::Conflict(*a.clone(), *b.clone())),
             // A goto consumes nothing: it's only taken after a reduction
             Some(Action::Goto(_)) | None => {
-                let expecteds = state.keys().cloned().collect();
+                let expecteds = state
+                    .iter()
+                    .filter(|(_, action)| !matches!(action, Action::Goto(_)))
+                    .map(|(term, _)| term.clone())
+                    .collect();
                 Err(Error::UnexpectedToken(symbol.clone(), expecteds))
             }
         }
-- 
2.43.0


From bd45e006769273759352c936ee2072ba111a2779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:28 +0000
Subject: [PATCH 06/18] fix: end a block comment at the first */

---
 wop/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wop/src/lib.rs b/wop/src/lib.rs
index 60489d5..f0ff1fa 100644
--- a/wop/src/lib.rs
+++ b/wop/src/lib.rs
@@ -83,7 +83,7 @@ pub enum Sym {
     StrLit,
 
     /// Block comment
-    #[regex(r#"/\*([^\*]|\*[^//])*\*/"#, logos::skip)]
+    #[regex(r#"/\*[^\*]*\*+([^/\*][^\*]*\*+)*/"#, logos::skip)]
     BlockComment,
 
     /// Line comment
-- 
2.43.0


From e71085d0b7743302b0835c0ff5c1021ecf2e1c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:28 +0000
Subject: [PATCH 07/18] fix: end a code block at the first }%

---
 wop/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wop/src/lib.rs b/wop/src/lib.rs
index f0ff1fa..9cf2db2 100644
--- a/wop/src/lib.rs
+++ b/wop/src/lib.rs
@@ -91,7 +91,7 @@ pub enum Sym {
     LineComment,
 
     /// Matches a entire function tail definition: arrow ("->"), return type and a expression
-    #[regex(r#"(->)([^\}]|\}[^%])*\}%"#)]
+    #[regex(r#"->[^\}]*\}+([^%\}][^\}]*\}+)*%"#)]
     CodeBlock,
 
     #[error]
-- 
2.43.0


From 01c30f1731f69a7c35977c891ed29c4294695c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:26 +0000
Subject: [PATCH 08/18] fix: keep an alias absent in the productions that lack
 its item

In nested groups the outer group turned Some(false) into Some(true), so the
alias was bound to an unrelated token. The bootstrapped parser was affected:
every aliased item was taken as cloned.
---
 wop/src/builder.rs |  3 ++-
 wop/src/out.rs     | 24 ++++++++++++++++++------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index 18b1236..b43b847 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -276,7 +276,8 @@ impl Builder {
                     .iter_mut()
                     .find(|a| a.alias.from_source(src) == alias_name.from_source(src))
                 {
-                    prod_alias.optional = Some(true);
+                    // an alias that is already known to be absent must stay absent
+                    prod_alias.optional.get_or_insert(true);
                 } else {
                     let item_alias = ItemAlias {
                         alias: **alias_name,
diff --git a/wop/src/out.rs b/wop/src/out.rs
index 324c40b..823afde 100644
--- a/wop/src/out.rs
+++ b/wop/src/out.rs
@@ -148,7 +148,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
             {
                 let item = Some(toks[0].clone());
                 let opt = Some(toks[1].clone());
-                let cl = Some(toks[3].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[3].clone());
                 {
                     Ast::RuleItem(
@@ -213,7 +215,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
                 let mut opt = Some(toks[0].clone());
                 opt = None;
                 let opt = opt;
-                let cl = Some(toks[2].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[2].clone());
                 {
                     Ast::RuleItem(
@@ -276,7 +280,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
             {
                 let item = Some(toks[0].clone());
                 let opt = Some(toks[1].clone());
-                let cl = Some(toks[3].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[3].clone());
                 {
                     Ast::RuleItem(
@@ -341,7 +347,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
                 let mut opt = Some(toks[0].clone());
                 opt = None;
                 let opt = opt;
-                let cl = Some(toks[2].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[2].clone());
                 {
                     Ast::RuleItem(
@@ -404,7 +412,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
             {
                 let rule = toks[1].clone();
                 let opt = Some(toks[3].clone());
-                let cl = Some(toks[5].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[5].clone());
                 {
                     Ast::RuleItem(
@@ -469,7 +479,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
                 let mut opt = Some(toks[0].clone());
                 opt = None;
                 let opt = opt;
-                let cl = Some(toks[4].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[4].clone());
                 {
                     Ast::RuleItem(
-- 
2.43.0


From a4c543c24918fd406a8cb0235d21d7a3038af23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:26 +0000
Subject: [PATCH 09/18] fix: bind a group alias to all the items its variant
 expands to

---
 wop/src/builder.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index b43b847..f7bb7d7 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -198,6 +198,10 @@ impl Builder {
                 Sym::Rule => match item.item.item {
                     Ast::Rule(ref variants) => {
                         let mut prods = Vec::new();
+                        if alias.is_some() {
+                            prod.aliases.last_mut().unwrap().final_index =
+                                Some(prod.production.len());
+                        }
                         for (variant, a) in variants {
                             assert_eq!(
                                 a,
@@ -205,11 +209,15 @@ impl Builder {
                                 "sub-rules like {} shouldn't have a codeblock",
                                 g.item.span.from_source(src)
                             );
+                            let mut news = self.get_from_single_production(&prod, variant, src);
                             if alias.is_some() {
-                                prod.aliases.last_mut().unwrap().final_index =
-                                    Some(prod.production.len() + variant.len());
+                                // the group ends where its variant does, however many items
+                                // that one has been expanded to
+                                for new in &mut news {
+                                    new.aliases[prod.aliases.len() - 1].final_index =
+                                        Some(new.production.len());
+                                }
                             }
-                            let news = self.get_from_single_production(&prod, variant, src);
                             prods.extend(news);
                         }
                         self.set_sub_aliases(&prod, &mut prods, src);
-- 
2.43.0


From c9fffa638c69b717e34cd3bfc4b62f95cd654175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:26 +0000
Subject: [PATCH 10/18] fix: give an absent alias the type it has when present

---
 wop/src/builder.rs | 55 ++++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index f7bb7d7..4a50bac 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -49,6 +49,19 @@ impl ProductionBuild {
 
 pub type RuleBuild = Vec<ProductionBuild>;
 impl ItemAlias {
+    /// The same alias in a production that lacks its item. The kind (owned or not, one item or
+    /// many) is kept, since the codeblock is shared.
+    #[must_use]
+    pub fn absent(&self) -> Self {
+        Self {
+            alias: self.alias,
+            optional: Some(false),
+            index: 0,
+            final_index: self.final_index.map(|_| 0),
+            clone: self.clone,
+        }
+    }
+
     pub fn dump(&self, src: &str) -> String {
         let mut s = String::new();
         self.write(&mut s, src).unwrap();
@@ -74,9 +87,10 @@ impl ItemAlias {
             // aren't a real type declaration inside this struct, we bind the type from `toks[0]`
             // and set to `None`. Also, it needs to be shadowed to prevent mutations.
             Some(false) => {
+                let index = self.final_index.map_or("0", |_| "0..0");
                 writeln!(
                     out,
-                    "let mut {alias} = Some({prefix}0{suffix}); {alias} = None; let {alias} = {alias};"
+                    "let mut {alias} = Some({prefix}{index}{suffix}); {alias} = None; let {alias} = {alias};"
                 )
             }
             None => writeln!(out, "let {alias} = {prefix}{index}{suffix};"),
@@ -230,14 +244,7 @@ impl Builder {
                             // `prods[x].aliases.len() = prods[x + 1].aliases.len()`
                             for alias in &prods[0].aliases {
                                 if !ignored_prod.aliases.iter().any(|a| a.alias == alias.alias) {
-                                    let item_alias = ItemAlias {
-                                        alias: alias.alias,
-                                        optional: Some(false),
-                                        index: 0,
-                                        final_index: None,
-                                        clone,
-                                    };
-                                    ignored_prod.aliases.push(item_alias);
+                                    ignored_prod.aliases.push(alias.absent());
                                 }
                             }
                             prods.push(ignored_prod);
@@ -271,31 +278,27 @@ impl Builder {
     /// in another.
     pub fn set_sub_aliases(&self, base: &ProductionBuild, productions: &mut RuleBuild, src: &str) {
         let base_aliases: HashSet<_> = base.aliases.iter().map(|a| a.alias).collect();
-        let prods_aliases: HashSet<_> = productions
-            .iter()
-            .flat_map(|a| a.aliases.iter())
-            .map(|a| a.alias)
-            .collect();
-        let prods_aliases: HashSet<_> = prods_aliases.difference(&base_aliases).collect();
+        let mut prods_aliases: Vec<ItemAlias> = Vec::new();
+        for alias in productions.iter().flat_map(|a| a.aliases.iter()) {
+            if !base_aliases.contains(&alias.alias)
+                && !prods_aliases
+                    .iter()
+                    .any(|a| a.alias.from_source(src) == alias.alias.from_source(src))
+            {
+                prods_aliases.push(alias.clone());
+            }
+        }
         for prod in productions.iter_mut() {
-            for alias_name in &prods_aliases {
+            for alias in &prods_aliases {
                 if let Some(prod_alias) = prod
                     .aliases
                     .iter_mut()
-                    .find(|a| a.alias.from_source(src) == alias_name.from_source(src))
+                    .find(|a| a.alias.from_source(src) == alias.alias.from_source(src))
                 {
                     // an alias that is already known to be absent must stay absent
                     prod_alias.optional.get_or_insert(true);
                 } else {
-                    let item_alias = ItemAlias {
-                        alias: **alias_name,
-                        optional: Some(false),
-                        index: 0,
-                        // FIXME: Will it ALWAYS be nothing?
-                        final_index: None,
-                        clone: false,
-                    };
-                    prod.aliases.push(item_alias);
+                    prod.aliases.push(alias.absent());
                 }
             }
         }
-- 
2.43.0


From 656662bb404dd18182108a8d74666c74ec16cd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:07 +0000
Subject: [PATCH 11/18] fix: generate valid function names for rules named by a
 path

---
 wop/src/builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index 4a50bac..39c9219 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -382,6 +382,8 @@ impl Builder {
         src: &str,
     ) {
         let ty = prods[0].ty.from_source(src);
+        // `name` can be a path, which isn't a valid function name
+        let fn_name = name.replace(|c: char| !c.is_alphanumeric() && c != '_', "_");
         for (i, prod) in prods.iter().enumerate() {
             let mut item_aliases = String::new();
             for alias in &prod.aliases {
@@ -389,14 +391,14 @@ impl Builder {
             }
             writeln!(
                     out,
-                    "\tfn lrp_wop_{name}_{i}(toks: &[{entry_type}]) -> lrp::Meta<{ty}> {{\n\t\tlrp::Meta::new({{ {item_aliases} {}}}, lrp::Span::new(toks[0].item.span.start, toks.last().unwrap().item.span.end))\n\t}}",
+                    "\tfn lrp_wop_{fn_name}_{i}(toks: &[{entry_type}]) -> lrp::Meta<{ty}> {{\n\t\tlrp::Meta::new({{ {item_aliases} {}}}, lrp::Span::new(toks[0].item.span.start, toks.last().unwrap().item.span.end))\n\t}}",
                     prod.codeblock.from_source(src).strip_prefix("->").unwrap().strip_suffix('%').unwrap()
                 )
                 .unwrap();
         }
         write!(out, "\tmap.insert({name}, vec![").unwrap();
         for (i, _) in prods.iter().enumerate() {
-            write!(out, "lrp_wop_{name}_{i}, ").unwrap();
+            write!(out, "lrp_wop_{fn_name}_{i}, ").unwrap();
         }
         out.push_str("\t]);\n\n");
     }
-- 
2.43.0


From 1318eee481a7293bf56f216c51ee9e348c1e3ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:56 +0000
Subject: [PATCH 12/18] fix: write no output when the grammar file does not
 parse

---
 wop/src/main.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/wop/src/main.rs b/wop/src/main.rs
index 0d58c0c..4b8b2d0 100644
--- a/wop/src/main.rs
+++ b/wop/src/main.rs
@@ -18,17 +18,18 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
 
     let mut dfa = wop::build_parser(lexer);
 
-    let res = match dfa.trace(|st| println!("{:?}", st.stack_fmt())) {
+    match dfa.trace(|st| println!("{:?}", st.stack_fmt())) {
         Err(e) => {
             println!("FATAL: {e}");
             println!("source:");
-            Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "impossible to parse").into())
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                "impossible to parse",
+            )
+            .into());
         }
-        Ok(p) => {
-            println!("OUTPUT: {p:?}");
-            Ok(())
-        }
-    };
+        Ok(p) => println!("OUTPUT: {p:?}"),
+    }
     println!("PARSING OUTPUT:");
     print_nested(&dfa.items[0], "", 0, &file);
 
@@ -66,7 +67,7 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {}"#,
         builder.dump_reductor(&file),
     )?;
     println!("ELAPSED TIME: {:?}", start.elapsed());
-    res
+    Ok(())
 }
 
 const TAB_C: &str = "  ";
-- 
2.43.0


From 721200b38affb3e77de49066e1f00fbf0fd324fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:38 +0000
Subject: [PATCH 13/18] fix: end the demo at the end of its input

---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ba4743a..76eaad3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -49,7 +49,9 @@ fn main() {
         io::stdout().flush().unwrap();
 
         let mut input = String::new();
-        io::stdin().read_line(&mut input).unwrap();
+        if io::stdin().read_line(&mut input).unwrap() == 0 {
+            break;
+        }
 
         #[allow(clippy::needless_collect)]
         let input: Vec<_> = input.trim().chars().map(|c| c.to_string()).collect();
-- 
2.43.0


From 2d264e187e848bf471a3f4ab71e81239d8e7480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:36 +0000
Subject: [PATCH 14/18] fix: refuse unknown characters in the demo instead of
 panicking

---
 src/main.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 76eaad3..a301874 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -53,13 +53,19 @@ fn main() {
             break;
         }
 
-        #[allow(clippy::needless_collect)]
-        let input: Vec<_> = input.trim().chars().map(|c| c.to_string()).collect();
-        let mut dfa = parser.simple_dfa(
-            input
-                .into_iter()
-                .map(|t| Token::new((), *terminals.get(t.as_str()).unwrap())),
-        );
+        let tokens: Result<Vec<_>, _> = input
+            .trim()
+            .chars()
+            .map(|c| terminals.get(c.to_string().as_str()).copied().ok_or(c))
+            .collect();
+        let input = match tokens {
+            Ok(tokens) => tokens,
+            Err(c) => {
+                println!("unknown token {c:?}");
+                continue;
+            }
+        };
+        let mut dfa = parser.simple_dfa(input.into_iter().map(|t| Token::new((), t)));
         print_proc_dfa(&mut dfa);
     }
 }
-- 
2.43.0


From 46e2e270abb309f5855da80ef5f4875c49afeeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:38 +0000
Subject: [PATCH 15/18] fix: keep apart the generated functions of rules with
 similar names

---
 wop/src/builder.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index 39c9219..26580a6 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -382,8 +382,9 @@ impl Builder {
         src: &str,
     ) {
         let ty = prods[0].ty.from_source(src);
-        // `name` can be a path, which isn't a valid function name
-        let fn_name = name.replace(|c: char| !c.is_alphanumeric() && c != '_', "_");
+        // `name` can be a path, so it can't be part of a function name. The block keeps apart the
+        // functions of the rules.
+        writeln!(out, "\tmap.insert({name}, {{").unwrap();
         for (i, prod) in prods.iter().enumerate() {
             let mut item_aliases = String::new();
             for alias in &prod.aliases {
@@ -391,16 +392,16 @@ impl Builder {
             }
             writeln!(
                     out,
-                    "\tfn lrp_wop_{fn_name}_{i}(toks: &[{entry_type}]) -> lrp::Meta<{ty}> {{\n\t\tlrp::Meta::new({{ {item_aliases} {}}}, lrp::Span::new(toks[0].item.span.start, toks.last().unwrap().item.span.end))\n\t}}",
+                    "\tfn lrp_wop_{i}(toks: &[{entry_type}]) -> lrp::Meta<{ty}> {{\n\t\tlrp::Meta::new({{ {item_aliases} {}}}, lrp::Span::new(toks[0].item.span.start, toks.last().unwrap().item.span.end))\n\t}}",
                     prod.codeblock.from_source(src).strip_prefix("->").unwrap().strip_suffix('%').unwrap()
                 )
                 .unwrap();
         }
-        write!(out, "\tmap.insert({name}, vec![").unwrap();
+        out.push_str("\tvec![");
         for (i, _) in prods.iter().enumerate() {
-            write!(out, "lrp_wop_{fn_name}_{i}, ").unwrap();
+            write!(out, "lrp_wop_{i}, ").unwrap();
         }
-        out.push_str("\t]);\n\n");
+        out.push_str("] });\n\n");
     }
 }
 
-- 
2.43.0


From 9169a0f9dc5c8ef047fa68936d84e616037c3fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:38 +0000
Subject: [PATCH 16/18] fix: report a reduction of missing terms as an error,
 as documented

---
 src/dfa.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dfa.rs b/src/dfa.rs
index 50d6297..a28ead0 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -193,6 +193,12 @@ where
     /// If there isn't a previous state, raises an `Error::MissingPreviousState`
     pub fn reduce(&mut self, name: &M, prod: &Production<M>) -> BaseResult<(), Error<M>> {
         let len = self.items.len();
+        if len < prod.0.len() {
+            return Err(Error::UnexpectedEof);
+        }
+        if self.states.len() <= prod.0.len() {
+            return Err(Error::MissingPreviousState);
+        }
         let items = &self.items[len - prod.0.len()..];
         // TODO: Create a custom Error
         debug_assert!(
-- 
2.43.0


From 229e5c5cc6abb5c5be4b91dbd5260f892b9ff918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:38 +0000
Subject: [PATCH 17/18] fix: replace out.rs only by a complete one, and report
 failed writes

---
 wop/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wop/src/main.rs b/wop/src/main.rs
index 4b8b2d0..499deba 100644
--- a/wop/src/main.rs
+++ b/wop/src/main.rs
@@ -41,7 +41,8 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
 
     println!("WRITING DUMP");
     let start = Instant::now();
-    let out = File::create("out.rs")?;
+    // An older `out.rs` is only replaced by a complete one
+    let out = File::create("out.rs.tmp")?;
     let mut writer = BufWriter::new(out);
     writeln!(
         writer,
@@ -66,6 +67,8 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {}"#,
         wop::builder::REDUCTOR_LINTS,
         builder.dump_reductor(&file),
     )?;
+    writer.flush()?;
+    fs::rename("out.rs.tmp", "out.rs")?;
     println!("ELAPSED TIME: {:?}", start.elapsed());
     Ok(())
 }
-- 
2.43.0


From 590aa895253f3cf040f2961092d31eabea009bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:31 +0000
Subject: [PATCH 18/18] fix: do not panic on input that is not UTF-8 in the
 demo command

---
 src/main.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a301874..8c56402 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,6 @@
 use std::{
     fmt,
-    io::{self, Write},
+    io::{self, BufRead, Write},
     iter::Peekable,
 };
 
@@ -48,10 +48,12 @@ fn main() {
         print!("input: ");
         io::stdout().flush().unwrap();
 
-        let mut input = String::new();
-        if io::stdin().read_line(&mut input).unwrap() == 0 {
+        let mut input = Vec::new();
+        if io::stdin().lock().read_until(b'\n', &mut input).unwrap() == 0 {
             break;
         }
+        // What is not text is no token either
+        let input = String::from_utf8_lossy(&input);
 
         let tokens: Result<Vec<_>, _> = input
             .trim()
-- 
2.43.0

