From 648e23f2db3ff4f17af50d9748789c329bd6f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:52 +0000
Subject: [PATCH 01/24] fix: always place a single-entry action set at a free
 offset of the action table

The search for a hole stopped one offset short when the set has only one
lookahead, falling back to an offset where an existing entry could also be
reached from the new state.
---
 pomelo-impl/src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index c5b1919..7d5aec1 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -414,7 +414,7 @@ impl ActTab {
                  ** If no holes are found, i is left at self.n_action, which means the
                  ** transaction will be appended. */
                 let mut r = self.a_action.len();
-                'ia: for i in 0..self.a_action.len() + max_lookahead {
+                'ia: for i in 0..=self.a_action.len() + max_lookahead {
                     for jla in &at2.a_lookahead {
                         let k = jla.lookahead - min_lookahead + i;
                         if let Some(Some(_)) = self.a_action.get(k) {
-- 
2.43.0


From 73863e9ee72a86cb0f901d6112ff82b77d0b87aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:52 +0000
Subject: [PATCH 02/24] fix: take negative offsets into account when choosing
 the offset table types

The element type of YY_SHIFT_OFST and YY_REDUCE_OFST depended only on the
largest offset, so an offset below -128 did not fit.
---
 pomelo-impl/src/parser/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 7d5aec1..67bd3dc 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -491,6 +491,11 @@ fn minimum_signed_type(max: usize) -> Ident {
     }
 }
 
+/* The type must hold every value in min..=max, where min may be negative. */
+fn minimum_signed_type_range(min: i32, max: i32) -> Ident {
+    minimum_signed_type(max.max(-(min + 1)).max(0) as usize)
+}
+
 fn minimum_unsigned_type(max: usize) -> Ident {
     if max < 0x100 {
         parse_quote!(u8)
@@ -2464,7 +2469,7 @@ impl Pomelo {
         src.extend(quote!(const YY_SHIFT_COUNT: i32 = #n as i32;));
         src.extend(quote!(const YY_SHIFT_MIN: i32 = #min_tkn_ofst;));
         src.extend(quote!(const YY_SHIFT_MAX: i32 = #max_tkn_ofst;));
-        let yy_shift_ofst_type = minimum_signed_type(max_tkn_ofst as usize);
+        let yy_shift_ofst_type = minimum_signed_type_range(yy_shift_use_dflt, max_tkn_ofst);
         let yy_shift_ofst = self.states[0..=n]
             .iter()
             .map(|stp| {
@@ -2486,7 +2491,7 @@ impl Pomelo {
         src.extend(quote!(const YY_REDUCE_COUNT: i32 = #n as i32;));
         src.extend(quote!(const YY_REDUCE_MIN: i32 = #min_nt_ofst;));
         src.extend(quote!(const YY_REDUCE_MAX: i32 = #max_nt_ofst;));
-        let yy_reduce_ofst_type = minimum_signed_type(max_nt_ofst as usize);
+        let yy_reduce_ofst_type = minimum_signed_type_range(yy_reduce_use_dflt, max_nt_ofst);
         let yy_reduce_ofst = self.states[0..=n]
             .iter()
             .map(|stp| {
-- 
2.43.0


From 9580b27d5a655fca51cd9821c0a60bd2eb98a462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:49 +0000
Subject: [PATCH 03/24] fix: report reduce-reduce conflicts between rules of
 the same precedence level

---
 pomelo-impl/src/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 67bd3dc..c7f9c4d 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1206,7 +1206,9 @@ impl Pomelo {
                 let precy = self.the_rules.get(y).precedence;
 
                 match (precx, precy) {
-                    (Some(px), Some(py)) => match precedence_cmp(px, py) {
+                    /* The associativity says nothing about which rule to reduce,
+                     ** so only the precedence level counts here. */
+                    (Some(px), Some(py)) => match px.0.cmp(&py.0) {
                         Ordering::Less => (false, RDResolved(x), Reduce(y)),
                         Ordering::Equal => (true, Reduce(x), RRConflict(y)),
                         Ordering::Greater => (false, Reduce(x), RDResolved(y)),
-- 
2.43.0


From 5aa66d28f7732fc55a123fd45228f78a6ecb8c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:51 +0000
Subject: [PATCH 04/24] fix: make the ordering of parser actions consistent

---
 pomelo-impl/src/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index c7f9c4d..3884bcc 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -186,7 +186,10 @@ impl ActionDetail {
                 Reduce(rb) => the_rules.get(ra).index.cmp(&the_rules.get(rb).index),
                 _ => Ordering::Less,
             },
-            _ => Ordering::Equal,
+            _ => match b {
+                Shift(_) | Accept | Reduce(_) => Ordering::Greater,
+                _ => Ordering::Equal,
+            },
         }
     }
 }
-- 
2.43.0


From 50a47f776045ce39b8c4c4dcca41334b0c8b55fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:52 +0000
Subject: [PATCH 05/24] fix: discard the reduction that a %nonassoc conflict
 turns into an error

---
 pomelo-impl/src/parser/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 3884bcc..f5add88 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1152,6 +1152,22 @@ impl Pomelo {
                     }
                 }
             }
+            /* A %nonassoc error takes the place of the reductions on the same lookahead */
+            for (i, ap) in stp.actions.iter().enumerate() {
+                let ap = ap.borrow();
+                if !matches!(ap.detail, ActionDetail::Error) {
+                    continue;
+                }
+                for nap in &stp.actions[i + 1..] {
+                    let mut nap = nap.borrow_mut();
+                    if nap.look_ahead != ap.look_ahead {
+                        break;
+                    }
+                    if let ActionDetail::Reduce(y) = nap.detail {
+                        nap.detail = ActionDetail::RDResolved(y);
+                    }
+                }
+            }
         }
         self.nconflict += nconflict;
 
-- 
2.43.0


From 0268a779b8df715355661f3f20ff3487d83390c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:54 +0000
Subject: [PATCH 06/24] fix: no default reduction in a state with any action on
 the wildcard

---
 pomelo-impl/src/parser/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index f5add88..14acf06 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1310,16 +1310,16 @@ impl Pomelo {
 
                 for (iap, ap) in stp.actions.iter().enumerate() {
                     let ap = ap.borrow();
+                    // Any action on the wildcard counts, or it would be taken instead of the
+                    // default by those tokens that lose their own action.
+                    if self.wildcard == Some(ap.look_ahead) && self.compute_action(&ap).is_some() {
+                        uses_wildcard = true;
+                    }
                     if ignored_actions.contains(&ap.look_ahead) {
                         continue;
                     }
-                    match (&ap.detail, &self.wildcard) {
-                        (Shift(_), Some(w)) => {
-                            if ap.look_ahead == *w {
-                                uses_wildcard = true;
-                            }
-                        }
-                        (Reduce(rp), _) => {
+                    match &ap.detail {
+                        Reduce(rp) => {
                             if self.the_rules.get(rp).lhs_start {
                                 continue;
                             }
-- 
2.43.0


From edfa75a049125430b5f9bbbd09fed68589d98857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 07/24] fix: do not report every token as expected after a
 %nonassoc error

---
 pomelo-impl/src/parser/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 14acf06..e94a77c 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1264,6 +1264,7 @@ impl Pomelo {
                 let mut nbest = 0;
                 let mut rbest = None;
                 let mut uses_wildcard = false;
+                let mut uses_error = false;
                 let stp = self.the_states.get(stp);
 
                 // ignored_actions will be actions that do not participate in the compression.
@@ -1315,6 +1316,9 @@ impl Pomelo {
                     if self.wildcard == Some(ap.look_ahead) && self.compute_action(&ap).is_some() {
                         uses_wildcard = true;
                     }
+                    if matches!(ap.detail, Error) {
+                        uses_error = true;
+                    }
                     if ignored_actions.contains(&ap.look_ahead) {
                         continue;
                     }
@@ -1355,9 +1359,11 @@ impl Pomelo {
 
                 /* Do not make a default if the number of rules to default
                  ** is not at least 1 or if the wildcard token is a possible
-                 ** lookahead.
+                 ** lookahead. Nor if the state has an explicit error, because
+                 ** with a default all the other tokens would be reported as
+                 ** expected.
                  */
-                if nbest < 1 || uses_wildcard {
+                if nbest < 1 || uses_wildcard || uses_error {
                     continue;
                 }
                 let rbest = rbest.unwrap();
-- 
2.43.0


From ee2a9229332baa3ff88fffa5073994f51e320c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:57 +0000
Subject: [PATCH 08/24] fix: reject a token that is its own fallback

---
 pomelo-impl/src/parser/mod.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index e94a77c..24ada0c 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1910,19 +1910,14 @@ impl Pomelo {
                 {
                     let mut fallback = fallback;
                     loop {
+                        if syms.iter().any(|(_, s)| *s == fallback) {
+                            return error_span(fb.span(), "Fallback directive creates a loop");
+                            //tested
+                        }
                         let fb_b = self.the_symbols.get(fallback);
                         match fb_b.fallback {
                             None => break,
-                            Some(fb_next) => {
-                                if syms.iter().any(|(_, s)| *s == fb_next) {
-                                    return error_span(
-                                        fb.span(),
-                                        "Fallback directive creates a loop",
-                                    );
-                                    //tested
-                                }
-                                fallback = fb_next;
-                            }
+                            Some(fb_next) => fallback = fb_next,
                         }
                     }
                 }
-- 
2.43.0


From 779e3815314560f43eb0d605298b1f495ea0c110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:58 +0000
Subject: [PATCH 09/24] fix: accept an untyped start symbol when other symbols
 have type ()

---
 pomelo-impl/src/parser/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 24ada0c..1996ad6 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2946,8 +2946,8 @@ impl Pomelo {
         }
         yyrules.push(quote!(_ => unreachable!("no rule to apply")));
 
-        let accept_code = match types.get(yyroottype) {
-            Some(n) => {
+        let accept_code = match start.dt_num {
+            n if n != 0 => {
                 let yyroot = Ident::new(&format!("YY{}", n), Span::call_site());
                 quote!(
                     if let YYMinorType::#yyroot(root) = yygotominor {
@@ -2958,7 +2958,7 @@ impl Pomelo {
                     }
                 )
             }
-            None => quote!(
+            _ => quote!(
                 yy.yystatus = YYStatus::Accepted(());
                 yy.yystack.clear();
             ),
-- 
2.43.0


From d200196a25a939e964d43337d3700c4a2c5b9338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:00 +0000
Subject: [PATCH 10/24] fix: do not use std paths in the generated code

---
 pomelo-impl/src/parser/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 1996ad6..f9d9fb7 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2690,7 +2690,7 @@ impl Pomelo {
             struct ExpectedTokens #yy_generics_impl #yy_generics_where {
                 stateno: i32,
                 yy_major: i32,
-                _phantom: ::std::marker::PhantomData<Parser #yy_generics>,
+                _phantom: ::core::marker::PhantomData<Parser #yy_generics>,
             }
 
             struct ExpectedToken #yy_generics_impl_token #yy_generics_where_token {
@@ -2703,7 +2703,7 @@ impl Pomelo {
                 type Item = ExpectedToken #yy_generics_token;
 
                 fn next(&mut self) -> Option<Self::Item> {
-                    use std::convert::TryFrom;
+                    use ::core::convert::TryFrom;
                     loop {
                         let yy_major = self.yy_major;
                         let name = *YY_TOKEN_NAMES.get(usize::try_from(yy_major).unwrap())?;
@@ -2760,7 +2760,7 @@ impl Pomelo {
                         let expected = ExpectedTokens {
                             stateno: yy.yystack.last().unwrap().stateno,
                             yy_major: 1,
-                            _phantom: ::std::marker::PhantomData,
+                            _phantom: ::core::marker::PhantomData,
                         };
 
                         if YYERRORSYMBOL != 0 {
-- 
2.43.0


From 37c1d1cb519ace5d6ee2c36229c0fed13b41ea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:37 +0000
Subject: [PATCH 11/24] fix: use the actual type of the symbol in optionals
 (default types and token classes)

---
 pomelo-impl/src/parser/mod.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index f9d9fb7..42392d6 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -663,10 +663,7 @@ impl Pomelo {
         let optional_tokens = std::mem::take(&mut self.optional_tokens);
         for (sym_r, SymbolSpan(sym_l, span)) in optional_tokens {
             let dt = self
-                .the_symbols
-                .get(sym_r)
-                .data_type
-                .clone()
+                .symbol_type(sym_r)
                 .unwrap_or_else(|| parse_quote!(()));
             self.the_symbols.get_mut(sym_l).data_type = Some(parse_quote!(Option<#dt>));
             let sym_l = SymbolSpan(sym_l, span);
@@ -690,6 +687,20 @@ impl Pomelo {
         }
     }
 
+    //Actual type of a symbol, once %default_type is taken into account.
+    fn symbol_type(&self, id: SymbolId) -> Option<Type> {
+        let sym = self.the_symbols.get(id);
+        match &sym.typ {
+            //MultiTerminals have the type of the first child.
+            //The type of the children need be the same only if an alias is used, so we
+            //cannot check it here
+            MultiTerminal(ss) => self.symbol_type(*ss.first().unwrap()),
+            //The wildcard never has a type
+            _ if self.wildcard == Some(id) => None,
+            _ => sym.data_type.clone().or_else(|| self.default_type.clone()),
+        }
+    }
+
     /* Find a precedence symbol of every rule in the grammar.
      **
      ** Those rules which have a precedence symbol coded in the input
@@ -2169,22 +2180,11 @@ impl Pomelo {
                 }
             }
 
+            let data_type = self.symbol_type(*sp);
             let mut sp = self.the_symbols.get_mut(sp);
 
             /* Determine the data_type of each symbol and fill its dt_num */
-            let data_type = match &sp.typ {
-                SymbolType::MultiTerminal(ss) => {
-                    //MultiTerminals have the type of the first child.
-                    //The type of the children need be the same only if an alias is used, so we
-                    //cannot check it here
-                    let first = self.the_symbols.get(ss.first().unwrap());
-                    first.data_type.clone()
-                }
-                SymbolType::Terminal => sp.data_type.clone(),
-                SymbolType::NonTerminal { .. } => sp.data_type.clone(),
-            };
-
-            sp.data_type = data_type.or_else(|| self.default_type.clone());
+            sp.data_type = data_type;
             sp.dt_num = match &sp.data_type {
                 None => 0,
                 Some(cp) => {
-- 
2.43.0


From 5d9fcb032720840a731878e1504d505f702a9472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:38 +0000
Subject: [PATCH 12/24] fix: forward the value of rules without code also for
 default types and compound tokens

---
 pomelo-impl/src/parser/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 42392d6..25c147c 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -750,14 +750,12 @@ impl Pomelo {
     fn normalize_rules(&mut self) -> syn::Result<()> {
         for rp in &self.rules {
             let mut rp = self.the_rules.get_mut(rp);
-            if self.the_symbols.get(rp.lhs.0).data_type.is_some() && rp.code.is_none() {
+            if self.symbol_type(rp.lhs.0).is_some() && rp.code.is_none() {
                 if rp.rhs.iter().all(|SymbolAlias(_, _, a)| a.is_none()) {
                     let mut rtyped = rp
                         .rhs
                         .iter_mut()
-                        .filter(|SymbolAlias(symbol, _, _)| {
-                            self.the_symbols.get(symbol).data_type.is_some()
-                        })
+                        .filter(|SymbolAlias(symbol, _, _)| self.symbol_type(*symbol).is_some())
                         .collect::<Vec<_>>();
                     if let [SymbolAlias(_, _, alias)] = &mut rtyped[..] {
                         *alias = Some(parse_quote!(_A));
@@ -765,6 +763,13 @@ impl Pomelo {
                         continue;
                     }
                 }
+                if self.the_symbols.get(rp.lhs.0).data_type.is_none() {
+                    //A %default_type of () needs no code
+                    let unit_type: Type = parse_quote!(());
+                    if self.default_type.as_ref() == Some(&unit_type) {
+                        continue;
+                    }
+                }
                 return error_span(
                     rp.lhs.1,
                     "This rule has a typed LHS but no code to assign it",
-- 
2.43.0


From 21f52ea7f997240e314c795ee37dd31c36f550cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:39 +0000
Subject: [PATCH 13/24] fix: allow an alias in an untyped fallback of a typed
 token

---
 pomelo-impl/src/parser/mod.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 25c147c..99f1b09 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -3023,18 +3023,24 @@ impl Pomelo {
         }
 
         let mut yypattern = Vec::new();
+        let mut yyunits = TokenStream::new();
         for SymbolAlias(r, _, alias) in &rp.rhs {
-            let yydt = Ident::new(
-                &format!("YY{}", self.the_symbols.get(r).dt_num),
-                Span::call_site(),
-            );
+            let dt_num = self.the_symbols.get(r).dt_num;
+            let yydt = Ident::new(&format!("YY{}", dt_num), Span::call_site());
             match alias {
                 Some(alias) => {
                     if Some(r) == self.wildcard.as_ref() {
                         return error_span(alias.span(), "Wildcard token must not have an alias");
                         //tested
                     }
-                    yypattern.push(quote!(YYMinorType::#yydt(#alias)))
+                    if dt_num == 0 {
+                        //An untyped symbol always evaluates to (), but if it is the fallback of
+                        //a typed token its minor may have any other type.
+                        yypattern.push(quote!(_));
+                        yyunits.extend(quote!(let #alias = ();));
+                    } else {
+                        yypattern.push(quote!(YYMinorType::#yydt(#alias)))
+                    }
                 }
                 None => yypattern.push(quote!(_)),
             }
@@ -3043,7 +3049,7 @@ impl Pomelo {
         let rule_code = rp.code.as_ref();
         code.extend(quote!(
             let yyres : #yyrestype = match (#(#yymatch),*) {
-                (#(#yypattern),*) => { #rule_code }
+                (#(#yypattern),*) => { #yyunits #rule_code }
                 _ => unreachable!("impossible pattern")
             };
         ));
-- 
2.43.0


From e5ec38956b404e62e5776bf51a2dfba2a39a6a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:41 +0000
Subject: [PATCH 14/24] fix: reject a second %stack_size even without a stack
 type

---
 pomelo-impl/src/parser/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 99f1b09..027a053 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -262,7 +262,7 @@ pub struct Pomelo {
     optional_tokens: HashMap<SymbolId, SymbolSpan>,
     extra_token: Option<Type>,
     stack_type: Option<Type>,
-    stack_limit: usize,
+    stack_limit: Option<usize>,
     verbose: bool,
 }
 
@@ -555,7 +555,7 @@ impl Pomelo {
             optional_tokens: HashMap::new(),
             extra_token: None,
             stack_type: None,
-            stack_limit: 100,
+            stack_limit: None,
             verbose: false,
         };
 
@@ -1999,10 +1999,10 @@ impl Pomelo {
                 self.extra_token = Some(ty);
             }
             Decl::StackSize(limit, ty) => {
-                if self.stack_type.is_some() {
+                if self.stack_limit.is_some() {
                     return error_span(ty.span(), "Stack size already defined");
                 }
-                self.stack_limit = limit;
+                self.stack_limit = Some(limit);
                 self.stack_type = ty;
             }
             Decl::Verbose => {
@@ -2159,7 +2159,7 @@ impl Pomelo {
             Some(ref ty) => Cow::Borrowed(ty),
             None => Cow::Owned(parse_quote!(std::vec::Vec)),
         };
-        let yystacklimit = self.stack_limit;
+        let yystacklimit = self.stack_limit.unwrap_or(100);
 
         src.extend(quote! {
             const YYNOCODE: i32 = #yynocode;
@@ -2243,7 +2243,7 @@ impl Pomelo {
             Some(ref c) => Cow::Borrowed(c),
             None => {
                 //stack_limit == 0, means unlimited, so the code will never be called
-                let c = if self.stack_limit == 0 {
+                let c = if yystacklimit == 0 {
                     parse_quote!({ unreachable!() })
                 } else {
                     parse_quote!({ Default::default() })
-- 
2.43.0


From 29f0591a1eb8435dbbd80312bb2e63315dcd25f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 15/24] fix: report empty and nested token classes instead of
 panicking

---
 pomelo-impl/src/parser/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 027a053..6d82c2b 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -568,6 +568,18 @@ impl Pomelo {
             pomelo.parse_one_decl(&mut pdata, decl)?;
         }
 
+        //A token can become a token_class at any point, so this has to be checked at the end.
+        for sp in &pomelo.symbols {
+            if let MultiTerminal(sub_sym) = &pomelo.the_symbols.get(sp).typ {
+                for ss in sub_sym {
+                    let ss = pomelo.the_symbols.get(ss);
+                    if let MultiTerminal(_) = ss.typ {
+                        return error(format!("token_class {} cannot be part of a compound", ss.name));
+                    }
+                }
+            }
+        }
+
         pomelo.symbol_new("{default}", NewSymbolType::NonTerminal);
 
         if pomelo.rules.is_empty() {
@@ -1965,6 +1977,9 @@ impl Pomelo {
                     return error_span(tk.span(), "token_class must be a token");
                     //tested
                 }
+                if ids.is_empty() {
+                    return error_span(tk.span(), "token_class must have at least one token");
+                }
                 let tk = self.symbol_new_t(&tk, NewSymbolType::MultiTerminal);
                 for id in ids {
                     if !is_terminal_ident(&id) {
-- 
2.43.0


From bcd84e342774cbd28232c88fc6e50cd8dc34186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:44 +0000
Subject: [PATCH 16/24] fix: do not ignore the ? of an alternation

---
 pomelo-impl/src/parser/mod.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 6d82c2b..ade6248 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2038,7 +2038,7 @@ impl Pomelo {
                 let rhs = rhs
                     .into_iter()
                     .map(|(toks, optional, alias)| {
-                        let SymbolSpan(tok, span) = if toks.len() == 1 {
+                        let tok = if toks.len() == 1 {
                             let tok = toks.into_iter().next().unwrap();
                             let nst = if is_terminal_ident(&tok) {
                                 NewSymbolType::Terminal
@@ -2050,22 +2050,7 @@ impl Pomelo {
                                     "Symbol must start with uppercase or lowercase letter",
                                 ); //tested
                             };
-                            if optional {
-                                let sym_r = self.symbol_new_t(&tok, nst);
-                                if let Some(sym_l) = self.optional_tokens.get(&sym_r) {
-                                    sym_l.clone()
-                                } else {
-                                    let sym_l = self.symbol_new_s(
-                                        &format!("_{}", self.optional_tokens.len()),
-                                        NewSymbolType::NonTerminal,
-                                    );
-                                    let sym_l = SymbolSpan(sym_l, tok.span());
-                                    self.optional_tokens.insert(sym_r, sym_l.clone());
-                                    sym_l
-                                }
-                            } else {
-                                self.symbol_new_t_span(&tok, nst)
-                            }
+                            self.symbol_new_t_span(&tok, nst)
                         } else {
                             let mt = self.symbol_new_s("", NewSymbolType::MultiTerminal);
                             let mut ss = Vec::new();
@@ -2086,6 +2071,22 @@ impl Pomelo {
                             }
                             SymbolSpan(mt, span)
                         };
+                        let SymbolSpan(tok, span) = if optional {
+                            let SymbolSpan(sym_r, span) = tok;
+                            if let Some(sym_l) = self.optional_tokens.get(&sym_r) {
+                                sym_l.clone()
+                            } else {
+                                let sym_l = self.symbol_new_s(
+                                    &format!("_{}", self.optional_tokens.len()),
+                                    NewSymbolType::NonTerminal,
+                                );
+                                let sym_l = SymbolSpan(sym_l, span);
+                                self.optional_tokens.insert(sym_r, sym_l.clone());
+                                sym_l
+                            }
+                        } else {
+                            tok
+                        };
                         Ok(SymbolAlias(tok, span, alias))
                     })
                     .collect::<syn::Result<Vec<_>>>()?;
-- 
2.43.0


From f966a032726ec0c8fb154a8615f3af4398b01d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:32 +0000
Subject: [PATCH 17/24] fix: do not panic sorting two shifts on the same
 lookahead in a state that shifts to itself

---
 pomelo-impl/src/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index ade6248..a15c69d 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1157,9 +1157,12 @@ impl Pomelo {
         /* Resolve conflicts */
         let mut nconflict = 0;
         for stp in &self.states {
-            self.the_states.get_mut(stp).actions.sort_by(|a, b| {
+            /* The comparison may look at any state, this one included: do not keep it borrowed */
+            let mut actions = std::mem::take(&mut self.the_states.get_mut(stp).actions);
+            actions.sort_by(|a, b| {
                 action_cmp(&self.the_symbols, &self.the_states, &self.the_rules, a, b)
             });
+            self.the_states.get_mut(stp).actions = actions;
             let stp = self.the_states.get(stp);
             let len = stp.actions.len();
             for i in 0..len {
-- 
2.43.0


From 6fb1fa5173255a4a9c7802b2d55da1856c85cd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 18/24] fix: %extra_token without any terminal

---
 pomelo-impl/src/parser/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index a15c69d..6f7316d 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2451,6 +2451,10 @@ impl Pomelo {
         ));
 
         if let Some(extra_token) = &self.extra_token {
+            if token_extra.is_empty() {
+                /* A reference to an empty enum still needs an arm */
+                token_extra.push(quote!(_ => ::core::unreachable!()));
+            }
             let token_extra = &token_extra; //so that we can use the same array several times
             src.extend(quote!(
                 impl #yy_generics_impl_token Token #yy_generics_token #yy_generics_where_token
-- 
2.43.0


From b544e353076f575a1cadcdc2baab73f4ad51e65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:43 +0000
Subject: [PATCH 19/24] fix: generic parameters of Token with defaults need no
 explicit Parser

---
 pomelo-impl/src/parser/mod.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 6f7316d..53b0141 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -9,7 +9,7 @@ use crate::decl::*;
 use proc_macro2::{Literal, Span, TokenStream};
 use quote::ToTokens;
 use syn::{
-    Attribute, Block, Fields, Ident, Item, ItemEnum, ItemStruct, Pat, Type, Variant,
+    Attribute, Block, Fields, GenericParam, Ident, Item, ItemEnum, ItemStruct, Pat, Type, Variant,
     spanned::Spanned,
 };
 
@@ -517,6 +517,16 @@ fn error_span<T>(span: Span, msg: &'static str) -> syn::Result<T> {
     Err(syn::Error::new(span, msg))
 }
 
+/* Bounds and defaults may differ: the default Parser has no defaults, for example */
+fn same_generic_param(a: &GenericParam, b: &GenericParam) -> bool {
+    match (a, b) {
+        (GenericParam::Lifetime(a), GenericParam::Lifetime(b)) => a.lifetime == b.lifetime,
+        (GenericParam::Type(a), GenericParam::Type(b)) => a.ident == b.ident,
+        (GenericParam::Const(a), GenericParam::Const(b)) => a.ident == b.ident,
+        _ => false,
+    }
+}
+
 fn is_terminal_ident(id: &Ident) -> bool {
     id.to_string().chars().next().unwrap().is_ascii_uppercase()
 }
@@ -2243,7 +2253,12 @@ impl Pomelo {
         }
 
         for g in yytoken.generics.params.iter() {
-            if !yyparser.generics.params.iter().any(|p| p == g) {
+            if !yyparser
+                .generics
+                .params
+                .iter()
+                .any(|p| same_generic_param(p, g))
+            {
                 return error_span(g.span(), "Generic parameter in Token is not in Parser");
                 //tested
             }
-- 
2.43.0


From 799399bac58013f032f72a7d540c4a0a19130cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:10 +0000
Subject: [PATCH 20/24] fix: reject refutable alias patterns

An alias is documented to be an irrefutable pattern, but a refutable one
was merged into the generated pattern and panicked at run time
("impossible pattern") when it did not match.
---
 pomelo-impl/src/parser/mod.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 53b0141..5dddf9a 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -3060,9 +3060,12 @@ impl Pomelo {
             }
         }
 
+        //The values are taken out of their YYMinorType first, and then matched to the user
+        //patterns, that have to be irrefutable, on their own.
         let mut yypattern = Vec::new();
-        let mut yyunits = TokenStream::new();
-        for SymbolAlias(r, _, alias) in &rp.rhs {
+        let mut yyalias = Vec::new();
+        let mut yyvalue = Vec::new();
+        for (i, SymbolAlias(r, _, alias)) in rp.rhs.iter().enumerate() {
             let dt_num = self.the_symbols.get(r).dt_num;
             let yydt = Ident::new(&format!("YY{}", dt_num), Span::call_site());
             match alias {
@@ -3075,19 +3078,30 @@ impl Pomelo {
                         //An untyped symbol always evaluates to (), but if it is the fallback of
                         //a typed token its minor may have any other type.
                         yypattern.push(quote!(_));
-                        yyunits.extend(quote!(let #alias = ();));
+                        yyalias.push(alias);
+                        yyvalue.push(quote!(()));
                     } else {
-                        yypattern.push(quote!(YYMinorType::#yydt(#alias)))
+                        let yypi = Ident::new(&format!("yyp{}", i), Span::call_site());
+                        yypattern.push(quote!(YYMinorType::#yydt(#yypi)));
+                        yyalias.push(alias);
+                        yyvalue.push(quote!(#yypi));
                     }
                 }
                 None => yypattern.push(quote!(_)),
             }
         }
 
-        let rule_code = rp.code.as_ref();
+        //A refutable pattern is reported at the rule
+        let rule_code = match &rp.code {
+            Some(code) => quote!(#code),
+            None => quote!({}),
+        };
+        let rule_span = Span::call_site().located_at(rp.span);
+        let yybind =
+            quote_spanned!(rule_span=> match (#(#yyvalue,)*) { (#(#yyalias,)*) => #rule_code });
         code.extend(quote!(
             let yyres : #yyrestype = match (#(#yymatch),*) {
-                (#(#yypattern),*) => { #yyunits #rule_code }
+                (#(#yypattern),*) => #yybind
                 _ => unreachable!("impossible pattern")
             };
         ));
-- 
2.43.0


From c34f54c02c06968dd0b0d7f3c3127a2a1e6db5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:10 +0000
Subject: [PATCH 21/24] fix: locate the alias of an optional compound at its
 symbol

An optional compound of tokens of different types was reported at the
whole macro call.
---
 pomelo-impl/src/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 5dddf9a..736609f 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -698,7 +698,9 @@ impl Pomelo {
                 None,
             );
 
-            let rhs = SymbolAlias(sym_r, span, Some(parse_quote!(_A)));
+            //Located at the symbol, for the errors about the alias
+            let alias = Ident::new("_A", Span::call_site().located_at(span));
+            let rhs = SymbolAlias(sym_r, span, Some(parse_quote!(#alias)));
             self.create_rule(
                 span,
                 sym_l,
-- 
2.43.0


From 61161b9960748ffe084b6ba7586af4845f6232f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:10 +0000
Subject: [PATCH 22/24] fix: report a second %stack_size where it is

Without a type it was reported at the whole macro call.
---
 pomelo-impl/src/decl.rs       | 3 ++-
 pomelo-impl/src/lib.rs        | 6 ++++--
 pomelo-impl/src/parser/mod.rs | 4 ++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/pomelo-impl/src/decl.rs b/pomelo-impl/src/decl.rs
index 6b64df3..307e3e5 100644
--- a/pomelo-impl/src/decl.rs
+++ b/pomelo-impl/src/decl.rs
@@ -1,3 +1,4 @@
+use proc_macro2::Span;
 use syn::{Attribute, Block, Ident, Item, ItemEnum, ItemStruct, Pat, Type};
 
 #[derive(Debug, Copy, Clone)]
@@ -25,7 +26,7 @@ pub enum Decl {
     TokenClass(Ident, Vec<Ident>),
     Token(ItemEnum),
     ExtraToken(Type),
-    StackSize(usize, Option<Type>),
+    StackSize(Span, usize, Option<Type>),
     Parser(ItemStruct),
     Verbose,
     Rule {
diff --git a/pomelo-impl/src/lib.rs b/pomelo-impl/src/lib.rs
index 0da0d20..f954fd1 100644
--- a/pomelo-impl/src/lib.rs
+++ b/pomelo-impl/src/lib.rs
@@ -225,14 +225,16 @@ impl Parse for Decl {
             } else if lookahead.peek(kw::stack_size) {
                 // %stack_size limit [type];
                 input.parse::<kw::stack_size>()?;
-                let limit = input.parse::<LitInt>()?.base10_parse::<usize>()?;
+                let limit = input.parse::<LitInt>()?;
+                let span = limit.span();
+                let limit = limit.base10_parse::<usize>()?;
                 let typ = if input.peek(Token![;]) {
                     None
                 } else {
                     Some(input.parse()?)
                 };
                 input.parse::<Token![;]>()?;
-                Ok(Decl::StackSize(limit, typ))
+                Ok(Decl::StackSize(span, limit, typ))
             } else if lookahead.peek(kw::verbose) {
                 // %verbose;
                 input.parse::<kw::verbose>()?;
diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 736609f..dfa15e8 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2028,9 +2028,9 @@ impl Pomelo {
                 }
                 self.extra_token = Some(ty);
             }
-            Decl::StackSize(limit, ty) => {
+            Decl::StackSize(span, limit, ty) => {
                 if self.stack_limit.is_some() {
-                    return error_span(ty.span(), "Stack size already defined");
+                    return error_span(span, "Stack size already defined");
                 }
                 self.stack_limit = Some(limit);
                 self.stack_type = ty;
-- 
2.43.0


From 542f67cf4de102a415d3857c6cde2d41f181c04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:37 +0000
Subject: [PATCH 23/24] fix: expand the same grammar always the same way

---
 pomelo-impl/src/parser/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index dfa15e8..a90310c 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1,7 +1,7 @@
 use std::borrow::Cow;
 use std::cell::RefCell;
 use std::cmp::{self, Ordering};
-use std::collections::{BTreeSet, HashMap};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::fmt::{Display, Write};
 use std::hash::{Hash, Hasher};
 
@@ -259,7 +259,7 @@ pub struct Pomelo {
     has_fallback: bool,           //True if any %fallback is seen in the grammar
     default_type: Option<Type>,   //The %default_type
     start: Option<SymbolId>,
-    optional_tokens: HashMap<SymbolId, SymbolSpan>,
+    optional_tokens: BTreeMap<SymbolId, SymbolSpan>, //Ordered, so that the expansion is reproducible
     extra_token: Option<Type>,
     stack_type: Option<Type>,
     stack_limit: Option<usize>,
@@ -562,7 +562,7 @@ impl Pomelo {
             has_fallback: false,
             default_type: None,
             start: None,
-            optional_tokens: HashMap::new(),
+            optional_tokens: BTreeMap::new(),
             extra_token: None,
             stack_type: None,
             stack_limit: None,
@@ -2288,6 +2288,9 @@ impl Pomelo {
             }
         };
 
+        //In order, so that the expansion is reproducible
+        let mut types = types.into_iter().collect::<Vec<_>>();
+        types.sort_by_key(|(_, v)| *v);
         let minor_types = types.iter().map(|(k, v)| {
             let ident = Ident::new(&format!("YY{}", v), Span::call_site());
             quote!(#ident(#k))
-- 
2.43.0


From 3f8f9f255fb07c88b039c20801e546505ad47904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:37 +0000
Subject: [PATCH 24/24] fix: %extra_argument of type () is an extra argument

---
 pomelo-impl/src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index a90310c..c1406b4 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2676,7 +2676,7 @@ impl Pomelo {
             #yyparser
         });
 
-        let impl_parser = if *yyextratype == unit_type {
+        let impl_parser = if self.arg.is_none() {
             quote! {
                 pub fn new() -> Self {
                     Self::new_priv(())
-- 
2.43.0

