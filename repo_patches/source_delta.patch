From 770db845e87edfac384fbb26807e69fda51fdf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 01/37] fix: unique search goes on after an item that was
 already visited

---
 search/src/search.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/search/src/search.rs b/search/src/search.rs
index 726b78f..0ce4b5c 100644
--- a/search/src/search.rs
+++ b/search/src/search.rs
@@ -139,20 +139,17 @@ pub mod unique {
                 ref mut elements,
             } = self;
 
-            if let Some(item) = search.agenda.pop() {
+            while let Some(item) = search.agenda.pop() {
                 if elements.insert(item.clone()) {
                     search.agenda.extend(
                         (search.successors)(&item)
                             .into_iter()
                             .filter(|i| !elements.contains(i)),
                     );
-                    Some(item)
-                } else {
-                    None
+                    return Some(item);
                 }
-            } else {
-                None
             }
+            None
         }
     }
 }
-- 
2.43.0


From e403dac287f5399c4f259f58c98270c587ad77a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 02/37] fix: UniqueHeap::from(Vec) keeps each element at most
 once

---
 unique-heap/src/lib.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/unique-heap/src/lib.rs b/unique-heap/src/lib.rs
index 427af98..83ab696 100644
--- a/unique-heap/src/lib.rs
+++ b/unique-heap/src/lib.rs
@@ -134,11 +134,7 @@ where
     B: BuildHasher + Default,
 {
     fn from(vec: Vec<(W, I)>) -> Self {
-        let current_items = vec.iter().map(|(_, i)| i).cloned().collect();
-        UniqueHeap {
-            heap: vec.into(),
-            current_items,
-        }
+        vec.into_iter().map(|(w, i)| (i, w)).collect()
     }
 }
 
-- 
2.43.0


From e79d6d2567253efb7a0799bae1e8fbea9dab7694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 03/37] fix: deserialising overlapping cells as a Partition is
 an error, not a panic

---
 src/util/partition.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/partition.rs b/src/util/partition.rs
index 17e8a6d..2a99034 100644
--- a/src/util/partition.rs
+++ b/src/util/partition.rs
@@ -3,7 +3,7 @@ use std::collections::{BTreeMap, BTreeSet};
 use std::ops::Deref;
 use std::rc::Rc;
 
-use serde::de::{Deserialize, Deserializer};
+use serde::de::{Deserialize, Deserializer, Error};
 use serde::ser::{Serialize, Serializer};
 
 /// A partition Π = {π₁, …, πₙ} of an alpbabet Σ, such that
@@ -76,7 +76,8 @@ impl<T: Serialize + Ord + Clone> Serialize for Partition<T> {
 impl<'de, T: Deserialize<'de> + Ord + Clone> Deserialize<'de> for Partition<T> {
     fn deserialize<D: Deserializer<'de>>(des: D) -> Result<Self, D::Error> {
         match Vec::deserialize(des) {
-            Ok(cells) => Ok(Partition::new(cells).unwrap()),
+            Ok(cells) => Partition::new(cells)
+                .ok_or_else(|| D::Error::custom("the cells are not pairwise disjoint")),
             Err(e) => Err(e),
         }
     }
-- 
2.43.0


From 3be2693e676141c251be99c0f5ebf27336c40f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 04/37] fix: lines that name the same equivalence class add up
 when read

---
 src/approximation/equivalence_classes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/approximation/equivalence_classes.rs b/src/approximation/equivalence_classes.rs
index a3e3eb7..c8afc3b 100644
--- a/src/approximation/equivalence_classes.rs
+++ b/src/approximation/equivalence_classes.rs
@@ -136,7 +136,7 @@ where
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let mut map = HashMap::new();
+        let mut map: HashMap<B, HashSet<A>> = HashMap::new();
         let mut default = None;
 
         for l in s.lines() {
@@ -146,7 +146,7 @@ where
                         label,
                         set: Some(elements),
                     } => {
-                        map.insert(label, elements);
+                        map.entry(label).or_default().extend(elements);
                     }
                     EquivalenceClass { label, set: None } => {
                         default = Some(label);
-- 
2.43.0


From e0b5ebe5ad33de73bb1655ca76813b079715f7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 05/37] fix: reading an equivalence relation with several
 default classes is an error

---
 src/approximation/equivalence_classes.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/approximation/equivalence_classes.rs b/src/approximation/equivalence_classes.rs
index c8afc3b..ff8b0c3 100644
--- a/src/approximation/equivalence_classes.rs
+++ b/src/approximation/equivalence_classes.rs
@@ -149,6 +149,9 @@ where
                         map.entry(label).or_default().extend(elements);
                     }
                     EquivalenceClass { label, set: None } => {
+                        if default.as_ref().map_or(false, |other| *other != label) {
+                            return Err(format!("There are several default classes in {}", s));
+                        }
                         default = Some(label);
                     }
                 }
-- 
2.43.0


From 94b1b21da6173b48f6f95aa8e48cbf47d1500c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 06/37] fix: lines of white space in equivalence relations are
 skipped

---
 src/approximation/equivalence_classes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/approximation/equivalence_classes.rs b/src/approximation/equivalence_classes.rs
index ff8b0c3..1302f00 100644
--- a/src/approximation/equivalence_classes.rs
+++ b/src/approximation/equivalence_classes.rs
@@ -140,7 +140,7 @@ where
         let mut default = None;
 
         for l in s.lines() {
-            if !l.is_empty() {
+            if !l.trim().is_empty() {
                 match l.trim().parse()? {
                     EquivalenceClass {
                         label,
-- 
2.43.0


From 23f5deaf84df3651c60b068d4d80ff8bda85ac80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 07/37] fix: text after an equivalence class is an error unless
 it is a comment

---
 src/approximation/equivalence_classes.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/approximation/equivalence_classes.rs b/src/approximation/equivalence_classes.rs
index 1302f00..cc1ffbf 100644
--- a/src/approximation/equivalence_classes.rs
+++ b/src/approximation/equivalence_classes.rs
@@ -179,7 +179,10 @@ where
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match parse_class(s.as_bytes()) {
-            IResult::Done(_, result) => Ok(result),
+            IResult::Done(rest, result) => match rest.iter().find(|&&c| !is_space(c)) {
+                None | Some(b'%') => Ok(result),
+                _ => Err(format!("Could not parse {}", s)),
+            },
             _ => Err(format!("Could not parse {}", s)),
         }
     }
-- 
2.43.0


From e338a5f3c270d3083334c1ad0e76f3454040bf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 08/37] fix: lines of white space in grammar files are skipped

---
 src/util/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/parsing.rs b/src/util/parsing.rs
index d0bbad6..efa0e47 100644
--- a/src/util/parsing.rs
+++ b/src/util/parsing.rs
@@ -139,7 +139,7 @@ where
                     ))
                 }
             }
-        } else if !l.is_empty() && !l.trim_start().starts_with("%") {
+        } else if !l.trim().is_empty() && !l.trim_start().starts_with("%") {
             rules.push(l.trim().parse()?);
         }
     }
-- 
2.43.0


From d35d8ca2b668ed043de2ef8b4ea42c4a3bdb8f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 09/37] fix: initial nonterminals may be indented and must be
 followed by nothing but a comment

---
 src/util/parsing.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/util/parsing.rs b/src/util/parsing.rs
index efa0e47..34c33d3 100644
--- a/src/util/parsing.rs
+++ b/src/util/parsing.rs
@@ -130,8 +130,12 @@ where
 
     while let Some(l) = it.next() {
         if l.trim_start().starts_with("initial:") {
-            match parse_initials(l.as_bytes()) {
-                IResult::Done(_, mut result) => initial.append(&mut result),
+            match parse_initials(l.trim().as_bytes()) {
+                IResult::Done(rest, ref mut result)
+                    if rest.iter().find(|&&c| !is_space(c)).map_or(true, |&c| c == b'%') =>
+                {
+                    initial.append(result)
+                }
                 _ => {
                     return Err(format!(
                         "Malformed declaration of initial nonterminals: \'{}\'",
-- 
2.43.0


From e8031e5155c17df054ad4634c1efda3b6f595e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 10/37] fix: unreadable numbers in PMCFG rules are an error,
 not a panic

---
 src/grammars/pmcfg/from_str.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/grammars/pmcfg/from_str.rs b/src/grammars/pmcfg/from_str.rs
index 274de4e..6057627 100644
--- a/src/grammars/pmcfg/from_str.rs
+++ b/src/grammars/pmcfg/from_str.rs
@@ -75,7 +75,8 @@ where
                     tag!("#")
                         >> take_while!(is_space)
                         >> weight_s: map_res!(is_not!(" "), from_utf8)
-                        >> (weight_s.parse().unwrap())
+                        >> weight: expr_res!(weight_s.parse())
+                        >> (weight)
                 )))
             >> take_while!(is_space)
             >> many0!(tag!("%"))
@@ -103,13 +104,12 @@ where
                 do_parse!(
                     tag!("Var")
                         >> take_while!(is_space)
-                        >> i: digit
+                        >> i_s: map_res!(digit, from_utf8)
+                        >> i: expr_res!(i_s.parse())
                         >> take_while!(is_space)
-                        >> j: digit
-                        >> (VarT::Var(
-                            from_utf8(i).unwrap().parse().unwrap(),
-                            from_utf8(j).unwrap().parse().unwrap(),
-                        ))
+                        >> j_s: map_res!(digit, from_utf8)
+                        >> j: expr_res!(j_s.parse())
+                        >> (VarT::Var(i, j))
                 ) | do_parse!(
                     tag!("T") >> take_while!(is_space) >> token: parse_token >> (VarT::T(token))
                 )
-- 
2.43.0


From 061007a81e6cad12911f7cc310369a749866767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 11/37] fix: text after a PMCFG rule is an error unless it is a
 comment

---
 src/grammars/pmcfg/from_str.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/grammars/pmcfg/from_str.rs b/src/grammars/pmcfg/from_str.rs
index 6057627..b235c2f 100644
--- a/src/grammars/pmcfg/from_str.rs
+++ b/src/grammars/pmcfg/from_str.rs
@@ -79,8 +79,7 @@ where
                         >> (weight)
                 )))
             >> take_while!(is_space)
-            >> many0!(tag!("%"))
-            >> take_while!(|_| true)
+            >> alt!(eof!() | preceded!(tag!("%"), take_while!(|_| true)))
             >> (PMCFGRule {
                 head: head,
                 tail: tail,
-- 
2.43.0


From efcab15c1ce458b479914a4589124122f54391cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 12/37] fix: tokens without quotation marks may contain any
 symbol that is not excluded

---
 src/util/parsing.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/util/parsing.rs b/src/util/parsing.rs
index 34c33d3..9c55844 100644
--- a/src/util/parsing.rs
+++ b/src/util/parsing.rs
@@ -1,7 +1,19 @@
-use nom::{is_space, IResult};
+use nom::{is_space, ErrorKind, IResult};
 use std::fmt::Debug;
 use std::str::{from_utf8, FromStr};
 
+/// Consumes everything up to a symbol that ends a token without delimiters.
+fn parse_bare_token(input: &[u8]) -> IResult<&[u8], &[u8]> {
+    let ends_at = |&i: &usize| {
+        b" \\\"-,;)]%#".contains(&input[i]) || input[i..].starts_with("→".as_bytes())
+    };
+
+    match (0..input.len()).find(ends_at).unwrap_or(input.len()) {
+        0 if !input.is_empty() => IResult::Error(error_position!(ErrorKind::IsNot, input)),
+        end => IResult::Done(&input[end..], &input[..end]),
+    }
+}
+
 /// Parses a token (i.e. a terminal symbol or a non-terminal symbol).
 /// A *token* can be of one of the following two forms:
 ///
@@ -20,7 +32,7 @@ where
                     tag!("\""),
                     escaped!(is_not!("\"\\"), '\\', one_of!("\\\"")),
                     tag!("\"")
-                ) | is_not!(" \\\"-→,;)]%#")
+                ) | parse_bare_token
             ),
             from_utf8
         )
-- 
2.43.0


From aa5d716dcb53d95c60be05b66919427a798b612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 13/37] fix: the initial nonterminal of an LCFRS is printed in
 quotation marks like the others

---
 src/grammars/lcfrs/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammars/lcfrs/mod.rs b/src/grammars/lcfrs/mod.rs
index c0eeadd..37993ff 100644
--- a/src/grammars/lcfrs/mod.rs
+++ b/src/grammars/lcfrs/mod.rs
@@ -76,7 +76,7 @@ impl<N: Display, T: Display, W: Display> Display for Lcfrs<N, T, W> {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         let mut buffer = "".to_string();
 
-        buffer.push_str(format!("initial: [{}]\n\n", self.init).as_str());
+        buffer.push_str(format!("initial: [\"{}\"]\n\n", self.init).as_str());
 
         for r in &self.rules {
             buffer.push_str(format!("{}\n", r).as_str());
-- 
2.43.0


From 4d098b4ab627f536b1bcf569683729f1f69f96ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 14/37] fix: a nonterminal without rules makes Lcfrs::new
 refuse the rules instead of panic

---
 src/grammars/lcfrs/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/grammars/lcfrs/mod.rs b/src/grammars/lcfrs/mod.rs
index 37993ff..6775a72 100644
--- a/src/grammars/lcfrs/mod.rs
+++ b/src/grammars/lcfrs/mod.rs
@@ -31,8 +31,11 @@ where
             // scope for lieftime of `fanouts` that borrows from rules
             let fanouts = read_fanouts(&rules)?;
             let check_fanouts = |rule: &PMCFGRule<N, T, W>| -> bool {
-                let fanouts: Vec<usize> = rule.tail.iter().map(|nt| fanouts[nt]).collect();
-                check_composition(&rule.composition.composition, &fanouts)
+                let fanouts: Option<Vec<usize>> =
+                    rule.tail.iter().map(|nt| fanouts.get(nt).cloned()).collect();
+                fanouts.map_or(false, |fanouts| {
+                    check_composition(&rule.composition.composition, &fanouts)
+                })
             };
 
             // check initial fanout
-- 
2.43.0


From 9a9e864e7a4d2d51ec93b6551bd95145cb26b3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 15/37] fix: the last nonterminals of an LCFRS rule may have
 fan-out 0

---
 src/grammars/lcfrs/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/grammars/lcfrs/mod.rs b/src/grammars/lcfrs/mod.rs
index 6775a72..2ea4720 100644
--- a/src/grammars/lcfrs/mod.rs
+++ b/src/grammars/lcfrs/mod.rs
@@ -127,6 +127,10 @@ fn check_composition<T>(composition: &[Vec<VarT<T>>], fanouts: &[usize]) -> bool
         VecMultiMapAdapter(&mut variable_occurances)[i].push(j);
     }
 
+    if variable_occurances.len() < fanouts.len() {
+        variable_occurances.resize(fanouts.len(), Vec::new());
+    }
+
     variable_occurances.len() == fanouts.len()
         && variable_occurances
             .into_iter()
-- 
2.43.0


From 4748ec22c19d5515d7f060235e464d89d7eb8636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 16/37] fix: rules with an underivable nonterminal are left out
 of the LCFRS for an MCFG instead of a panic

---
 src/grammars/lcfrs/conversion.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/grammars/lcfrs/conversion.rs b/src/grammars/lcfrs/conversion.rs
index ef428e9..4c16560 100644
--- a/src/grammars/lcfrs/conversion.rs
+++ b/src/grammars/lcfrs/conversion.rs
@@ -70,6 +70,10 @@ where
         .uniques()
         {
             for rule in rulemap.get(a).unwrap_or(&Vec::new()) {
+                // a rule with a nonterminal that has no rules is not part of any derivation
+                if rule.tail.iter().any(|nt| !fanouts.contains_key(nt)) {
+                    continue;
+                }
                 rules.push(to_lcfrs_rule((*rule).clone(), deletions.clone(), &fanouts));
             }
         }
-- 
2.43.0


From abeeac17280031bd82b590c51922d77ea0ac8005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 17/37] fix: a leading terminal is separated from the variables
 that follow it

---
 src/grammars/pmcfg/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/grammars/pmcfg/mod.rs b/src/grammars/pmcfg/mod.rs
index cfcb779..66ef688 100644
--- a/src/grammars/pmcfg/mod.rs
+++ b/src/grammars/pmcfg/mod.rs
@@ -478,6 +478,7 @@ where
             for variable in component {
                 match variable {
                     &VarT::Var(num_nonter, num_compon) => {
+                        contains_only_one_terminal = false;
                         new_component.push(VarT::Var(num_nonter, num_compon));
                     }
                     &VarT::T(ref terminal) => {
-- 
2.43.0


From 4b578b20920c56e679aeb33d86ecf44126c89990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 18/37] fix: a line that cannot be read makes reading a
 disco-dop grammar or lexicon fail

---
 src/grammars/lcfrs/from_discodop.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/grammars/lcfrs/from_discodop.rs b/src/grammars/lcfrs/from_discodop.rs
index 96a76ef..339a17f 100644
--- a/src/grammars/lcfrs/from_discodop.rs
+++ b/src/grammars/lcfrs/from_discodop.rs
@@ -31,6 +31,14 @@ fn is_binary_digit(c: char) -> bool {
     c == '0' || c == '1'
 }
 
+/// The result of a parser that must not leave anything but white space of its input.
+fn all_read<A>(result: IResult<&str, A>) -> Result<A, nom::Err<u32>> {
+    match result {
+        IResult::Done(rest, _) if !rest.trim().is_empty() => Err(ErrorKind::Eof),
+        result => result.to_result(),
+    }
+}
+
 /// Interprets a string over { '0', '1' } in reverse as an integer in binary format.
 fn from_binary(s: &str) -> Option<u64> {
     s.chars()
@@ -332,7 +340,7 @@ where
     type Err = nom::Err<u32>;
     fn from_str(constituent_str: &str) -> Result<Self, Self::Err> {
         Ok(DiscoDopGrammar {
-            constituents: parse_discodop_constituents(constituent_str).to_result()?,
+            constituents: all_read(parse_discodop_constituents(constituent_str))?,
             lexer: None,
         })
     }
@@ -349,7 +357,7 @@ where
 {
     type Err = nom::Err<u32>;
     fn from_str(lexer_str: &str) -> Result<Self, Self::Err> {
-        parse_discodop_lexer(lexer_str).to_result()
+        all_read(parse_discodop_lexer(lexer_str))
     }
 }
 
-- 
2.43.0


From 1ddcdffc2d9341d1ed33850ec0bb3c692b86c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 19/37] fix: yield functions and weights of disco-dop rules are
 read completely

---
 src/grammars/lcfrs/from_discodop.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grammars/lcfrs/from_discodop.rs b/src/grammars/lcfrs/from_discodop.rs
index 339a17f..cf0fb93 100644
--- a/src/grammars/lcfrs/from_discodop.rs
+++ b/src/grammars/lcfrs/from_discodop.rs
@@ -177,8 +177,8 @@ where
                     } else {
                         (DiscoDeriv::Chain{lhs, rhs}, s_rhs_or_y, s_y_or_w)
                     };
-                    let ys = parse_yield(y).to_result().map_err(|_| ParseConsituentsError::Yield)?;
-                    let weight = parse_pseudocount(w).to_result().map_err(|_| ParseConsituentsError::Weight)?;
+                    let ys = all_read(parse_yield(y)).map_err(|_| ParseConsituentsError::Yield)?;
+                    let weight = all_read(parse_pseudocount(w)).map_err(|_| ParseConsituentsError::Weight)?;
                     Ok((deriv, ys, weight))
                 }
             )
-- 
2.43.0


From 2d359d1c2cd38f13480bace42624284157c25ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 20/37] fix: yield functions with components that are too long
 are an error

---
 src/grammars/lcfrs/from_discodop.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/grammars/lcfrs/from_discodop.rs b/src/grammars/lcfrs/from_discodop.rs
index cf0fb93..eea283c 100644
--- a/src/grammars/lcfrs/from_discodop.rs
+++ b/src/grammars/lcfrs/from_discodop.rs
@@ -40,7 +40,11 @@ fn all_read<A>(result: IResult<&str, A>) -> Result<A, nom::Err<u32>> {
 }
 
 /// Interprets a string over { '0', '1' } in reverse as an integer in binary format.
+/// There is no integer for strings with more than 64 digits.
 fn from_binary(s: &str) -> Option<u64> {
+    if s.len() > 64 {
+        return None;
+    }
     s.chars()
         .enumerate()
         .map(|(i, c)| match c {
-- 
2.43.0


From abb991290e7199b2c996244af2c6b371a570123a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:45 +0000
Subject: [PATCH 21/37] fix: count repeated initial nonterminals of a CFG only
 once

---
 src/automata/push_down_automaton/from_cfg.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/automata/push_down_automaton/from_cfg.rs b/src/automata/push_down_automaton/from_cfg.rs
index 93b1784..07addc4 100644
--- a/src/automata/push_down_automaton/from_cfg.rs
+++ b/src/automata/push_down_automaton/from_cfg.rs
@@ -107,7 +107,12 @@ impl<
         }
 
         // creates a transition for the `Initial` symbol to all Nonterminals in `initial` with weight `one`
+        // (`initial` is a set, repeated nonterminals must not add up their weights)
+        let mut seen_initials = HashSet::new();
         for ini in g.initial {
+            if !seen_initials.insert(ini.clone()) {
+                continue;
+            }
             let mut tvec = Vec::new();
             tvec.push(PushState::Nt(ini));
             transitions.push(Transition {
-- 
2.43.0


From 483ddef79cb5956ce96b2c1038d208b33d120cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 22/37] fix: allow PMCFG rules with nonterminals that have no
 rules in tree-stack automata

---
 src/automata/tree_stack_automaton/from_pmcfg.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/automata/tree_stack_automaton/from_pmcfg.rs b/src/automata/tree_stack_automaton/from_pmcfg.rs
index 005b2e9..e839b72 100644
--- a/src/automata/tree_stack_automaton/from_pmcfg.rs
+++ b/src/automata/tree_stack_automaton/from_pmcfg.rs
@@ -125,7 +125,10 @@ impl<
         for r in g.rules {
             agenda.push((
                 r.clone(),
-                r.tail.iter().map(|n| rule_map[n].clone()).collect(),
+                r.tail
+                    .iter()
+                    .map(|n| rule_map.get(n).cloned().unwrap_or_default())
+                    .collect(),
             ));
         }
 
-- 
2.43.0


From 92d0feacfcc282b5fbb7fc6b479939b96a7ac316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:52 +0000
Subject: [PATCH 23/37] fix: tree-stack automata accepted the empty word with
 an empty run

---
 src/automata/tree_stack_automaton/mod.rs | 3 ++-
 src/recognisable/automaton.rs            | 9 +++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/automata/tree_stack_automaton/mod.rs b/src/automata/tree_stack_automaton/mod.rs
index d9ad20a..d98ba38 100644
--- a/src/automata/tree_stack_automaton/mod.rs
+++ b/src/automata/tree_stack_automaton/mod.rs
@@ -163,7 +163,8 @@ where
     }
 
     fn is_terminal(&self, c: &Configuration<TreeStack<usize>, usize, W>) -> bool {
-        c.word.is_empty() && c.storage.is_at_bottom()
+        // at the bottom of the initial tree stack nothing has been recognised yet
+        c.word.is_empty() && c.storage.is_at_bottom() && c.storage != self.initial
     }
 
     fn transitions<'a>(
diff --git a/src/recognisable/automaton.rs b/src/recognisable/automaton.rs
index 6b187a1..a56d97c 100644
--- a/src/recognisable/automaton.rs
+++ b/src/recognisable/automaton.rs
@@ -85,6 +85,15 @@ where
         &self,
         run: Pushdown<Transition<Self::I, T, W>>,
     ) -> Vec<Item<<Self::I as Instruction>::Storage, Self::I, T, W>> {
+        let initial = Configuration {
+            word: Vec::new(),
+            storage: self.initial_int(),
+            weight: W::one(),
+        };
+        if run.is_empty() && !self.is_terminal(&initial) {
+            return Vec::new();
+        }
+
         let mut result = Vec::new();
         let mut weight = W::one();
         result.push(self.initial());
-- 
2.43.0


From 68ea97f2ac14d4c875552bf611e97e839783d747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 24/37] fix: tree-stack automata read only the last of several
 terminals at the end of a component

---
 src/automata/tree_stack_automaton/from_pmcfg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/automata/tree_stack_automaton/from_pmcfg.rs b/src/automata/tree_stack_automaton/from_pmcfg.rs
index e839b72..02feda7 100644
--- a/src/automata/tree_stack_automaton/from_pmcfg.rs
+++ b/src/automata/tree_stack_automaton/from_pmcfg.rs
@@ -77,8 +77,8 @@ impl<
             let mut down_buffer: Vec<T> = Vec::new();
             for component in &r.composition.composition {
                 i = 0;
+                down_buffer.clear();
                 for ntt in component {
-                    down_buffer.clear();
                     match *ntt {
                         VarT::Var(_, _) => {
                             i += 1;
-- 
2.43.0


From a04e2ec3f475adc7177835afce8f92d093bff264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:58 +0000
Subject: [PATCH 25/37] fix: approximated transitions with combined weights
 could not be mapped back

---
 src/approximation/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/approximation/mod.rs b/src/approximation/mod.rs
index 7087d92..90a7369 100644
--- a/src/approximation/mod.rs
+++ b/src/approximation/mod.rs
@@ -53,8 +53,8 @@ where
     T: Clone + Eq + Ord,
     W: Clone + MulAssign + One + Ord,
 {
-    reverse_transition_map:
-        BTreeMap<Transition<Strategy::I2, T, W>, Vec<Transition<Strategy::I1, T, W>>>,
+    // the weights of transitions that coincide may be combined, so they are not part of the key
+    reverse_transition_map: BTreeMap<(Vec<T>, Strategy::I2), Vec<Transition<Strategy::I1, T, W>>>,
     strategy: Strategy,
 }
 
@@ -95,7 +95,7 @@ where
             weight: t1.weight.clone(),
         };
         self.reverse_transition_map
-            .entry(t2.clone())
+            .entry((t2.word.clone(), t2.instruction.clone()))
             .or_insert(Vec::new())
             .push(t1);
         t2
@@ -105,7 +105,10 @@ where
         &self,
         t2: &Transition<Strategy::I2, T, W>,
     ) -> Vec<Transition<Strategy::I1, T, W>> {
-        match self.reverse_transition_map.get(t2) {
+        match self
+            .reverse_transition_map
+            .get(&(t2.word.clone(), t2.instruction.clone()))
+        {
             None => Vec::new(),
             Some(v) => v.clone(),
         }
-- 
2.43.0


From a8cedcf6bd860323c78b516cc2a0d15d5b5947f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:49 +0000
Subject: [PATCH 26/37] fix: coarse-to-fine recognition only looked at the
 first parse of the next coarser level

---
 src/recognisable/coarse_to_fine.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/recognisable/coarse_to_fine.rs b/src/recognisable/coarse_to_fine.rs
index 5f24832..f45313e 100644
--- a/src/recognisable/coarse_to_fine.rs
+++ b/src/recognisable/coarse_to_fine.rs
@@ -70,10 +70,7 @@ where
         if self.input_buffer.is_none() {
             self.input_buffer = Some(self.sublevel_parses.next());
         }
-        match self.input_buffer {
-            Some(ref mut x) => x.take(),
-            _ => unreachable!(),
-        }
+        self.input_buffer.take().and_then(|item| item)
     }
 }
 
-- 
2.43.0


From 681273ddd714df4f6d92c21484314e80c3d7a4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:13 +0000
Subject: [PATCH 27/37] fix: finite-state automata were printed with numbers
 instead of their states, and their transitions without parentheses

---
 src/automata/finite_state_automaton/mod.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/automata/finite_state_automaton/mod.rs b/src/automata/finite_state_automaton/mod.rs
index ffa771a..d436530 100644
--- a/src/automata/finite_state_automaton/mod.rs
+++ b/src/automata/finite_state_automaton/mod.rs
@@ -210,7 +210,7 @@ where
     Q: Display,
 {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
-        write!(f, "{} → {}", self.source_state, self.target_state)
+        write!(f, "({} → {})", self.source_state, self.target_state)
     }
 }
 
@@ -221,19 +221,16 @@ where
     W: Clone + Display + Ord,
 {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
+        let state = |i| self.q_integeriser.find_value(i).unwrap();
         let mut buffer = "".to_string();
-        buffer.push_str(&format!("initial: {}\n", self.initial_state));
+        buffer.push_str(&format!("initial: \"{}\"\n", state(self.initial_state)));
 
         buffer.push_str("final: [");
-        let mut first = true;
-        for i in 0..self.final_states.len() {
-            if self.final_states.contains(i) {
-                if first {
-                    buffer.push_str(", ");
-                    first = false;
-                }
-                buffer.push_str(&format!("\"{}\"", i));
+        for (position, i) in self.final_states.iter().enumerate() {
+            if position > 0 {
+                buffer.push_str(", ");
             }
+            buffer.push_str(&format!("\"{}\"", state(i)));
         }
         buffer.push_str("]\n\n");
         for t in self.list_transitions() {
-- 
2.43.0


From 7e39f2223aa851cac86611aaa6f1fdfb20805f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:13 +0000
Subject: [PATCH 28/37] fix: tree-stack automata were printed with a number
 instead of their initial symbol

---
 src/automata/tree_stack_automaton/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/automata/tree_stack_automaton/mod.rs b/src/automata/tree_stack_automaton/mod.rs
index d98ba38..c57812f 100644
--- a/src/automata/tree_stack_automaton/mod.rs
+++ b/src/automata/tree_stack_automaton/mod.rs
@@ -246,8 +246,10 @@ where
         }
         write!(
             f,
-            "initial: {}\n\n{}",
-            self.initial.current_symbol(),
+            "initial: \"{}\"\n\n{}",
+            self.a_integeriser
+                .find_value(*self.initial.current_symbol())
+                .unwrap(),
             formatted_transitions
         )
     }
-- 
2.43.0


From 82c486ea2e1223208227ac5a72973781645a500f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 29/37] fix: malformed transitions panicked or were cut off
 where they are not understood

---
 src/recognisable/from_str.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/recognisable/from_str.rs b/src/recognisable/from_str.rs
index bc21893..700c0ef 100644
--- a/src/recognisable/from_str.rs
+++ b/src/recognisable/from_str.rs
@@ -20,7 +20,7 @@ where
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match parse_transition(s.as_bytes()) {
-            IResult::Done(_, result) => Ok(result),
+            IResult::Done([], result) => Ok(result),
             _ => Err(format!("Could not parse: {}", s)),
         }
     }
@@ -43,23 +43,26 @@ where
             >> take_while!(is_space)
             >> instruction:
                 map_res!(
-                    delimited!(tag!("("), take_until!(")"), tag!(")")),
-                    from_utf8
+                    map_res!(
+                        delimited!(tag!("("), take_until!(")"), tag!(")")),
+                        from_utf8
+                    ),
+                    str::parse::<I>
                 )
             >> take_while!(is_space)
             >> weight_o:
                 opt!(complete!(do_parse!(
                     tag!("#")
                         >> take_while!(is_space)
-                        >> weight_s: map_res!(is_not!(" "), from_utf8)
-                        >> (weight_s.parse().unwrap())
+                        >> weight: map_res!(map_res!(is_not!(" \t"), from_utf8), str::parse::<W>)
+                        >> (weight)
                 )))
             >> take_while!(is_space)
             >> opt!(complete!(parse_comment))
             >> (Transition {
                 word: word,
                 weight: weight_o.unwrap_or(W::one()),
-                instruction: instruction.parse().unwrap(),
+                instruction: instruction,
             })
     )
 }
-- 
2.43.0


From 1653cc05df748cac8bf8925c703ae2664bc91767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 30/37] fix: automata with blank lines or empty instructions
 could not be read

---
 src/automata/finite_state_automaton/from_str.rs | 2 +-
 src/automata/tree_stack_automaton/from_str.rs   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/automata/finite_state_automaton/from_str.rs b/src/automata/finite_state_automaton/from_str.rs
index ff542cd..1ea58a8 100644
--- a/src/automata/finite_state_automaton/from_str.rs
+++ b/src/automata/finite_state_automaton/from_str.rs
@@ -41,7 +41,7 @@ where
                     }
                     _ => return Err(format!("Malformed final declaration: {}", l)),
                 }
-            } else if !l.is_empty() && !l.trim_start().starts_with("%") {
+            } else if !l.trim().is_empty() && !l.trim_start().starts_with("%") {
                 transitions.push(l.trim().parse()?);
             }
         }
diff --git a/src/automata/tree_stack_automaton/from_str.rs b/src/automata/tree_stack_automaton/from_str.rs
index 3150cc4..f8f6a76 100644
--- a/src/automata/tree_stack_automaton/from_str.rs
+++ b/src/automata/tree_stack_automaton/from_str.rs
@@ -35,7 +35,7 @@ where
                     }
                     _ => return Err(format!("Malformed initial declaration: {}", l)),
                 }
-            } else if !l.is_empty() && !l.trim_start().starts_with("%") {
+            } else if !l.trim().is_empty() && !l.trim_start().starts_with("%") {
                 transitions.push(l.trim().parse()?);
             }
         }
@@ -53,7 +53,7 @@ impl<A: FromStr> FromStr for TreeStackInstruction<A> {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let v: Vec<&str> = s.split_whitespace().collect();
         let e: String = "Malformed node label.".to_string();
-        match v[0] {
+        match *v.first().unwrap_or(&"") {
             "Up" if v.len() == 5 => {
                 let n: usize = v[1].parse().map_err(|e: ParseIntError| e.to_string())?;
                 let cur_val: A = v[2].parse().map_err(|_| e.clone())?;
-- 
2.43.0


From 348b63e8cab134e36fbb09669dc94fba03e64f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 31/37] =?UTF-8?q?fix:=20Chomsky-Sch=C3=BCtzenberger=20pars?=
 =?UTF-8?q?ing=20used=20terminal=20rules=20regardless=20of=20the=20termina?=
 =?UTF-8?q?l?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/grammars/lcfrs/csparsing/automaton/chart.rs    | 14 +++++++++++++-
 .../lcfrs/csparsing/automaton/kbest/mod.rs         |  2 +-
 src/grammars/lcfrs/csparsing/automaton/mod.rs      |  2 ++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/chart.rs b/src/grammars/lcfrs/csparsing/automaton/chart.rs
index 3adacc0..8b5b1d0 100644
--- a/src/grammars/lcfrs/csparsing/automaton/chart.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/chart.rs
@@ -1,4 +1,4 @@
-use super::{RangeT, StateT};
+use super::{RangeT, RuleIdT, StateT};
 use num_traits::Zero;
 use std::ops::AddAssign;
 
@@ -11,6 +11,7 @@ pub struct DenseChart<W>(
     usize,            // n
     usize,            // states
     u16,              // max no. of constituents per span
+    Vec<Vec<RuleIdT>>, // terminal rules per position, sorted
 );
 
 pub fn chart_size(n: usize) -> usize {
@@ -44,6 +45,7 @@ impl<W: Copy> DenseChart<W> {
             n,
             states,
             bt_per_cell as u16,
+            vec![Vec::new(); n],
         )
     }
 
@@ -58,6 +60,16 @@ impl<W: Copy> DenseChart<W> {
         }
     }
 
+    /// Stores the (sorted) terminal rules that are applicable at a position.
+    pub fn set_terminal_rules(&mut self, i: RangeT, rules: Vec<RuleIdT>) {
+        self.6[i as usize] = rules;
+    }
+
+    /// Checks if a terminal rule is applicable at a position.
+    pub fn is_terminal_rule_at(&self, i: RangeT, rule: RuleIdT) -> bool {
+        self.6[i as usize].binary_search(&rule).is_ok()
+    }
+
     /// Gets weight for specific constituent and span.
     pub fn get_weight(&self, i: RangeT, j: RangeT, q: StateT) -> Option<W>
     where
diff --git a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
index c0d476d..d5d60d7 100644
--- a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
@@ -126,7 +126,7 @@ where
         if j - i == 1 {
             for &(r, w) in nullaries[q as usize]
                 .iter()
-                .filter(|&(r, _)| filter[*r as usize])
+                .filter(|&(r, _)| filter[*r as usize] && chart.is_terminal_rule_at(i, *r))
             {
                 // is is not correct in general, but ok for terminal-seperated rules
                 heap.push(IndexedBacktrace::Nullary(r, w), w);
diff --git a/src/grammars/lcfrs/csparsing/automaton/mod.rs b/src/grammars/lcfrs/csparsing/automaton/mod.rs
index 13f33b7..e7d5602 100644
--- a/src/grammars/lcfrs/csparsing/automaton/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/mod.rs
@@ -290,6 +290,8 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                 // initial predictions for each position in word
                 if range == 1 {
                     if let Some(initials) = self.2.get(&word[l]) {
+                        let rules = initials.iter().map(|&(rid, _)| rid).collect();
+                        chart.set_terminal_rules(l as u8, rules);
                         heap_of_nonterminals.extend(initials.iter().filter_map(|&(rid, (w, q))| {
                             if !rule_filter[rid as usize] {
                                 return None;
-- 
2.43.0


From e9751570f20fb4a8117e1dfb545944c8270b5945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 32/37] =?UTF-8?q?fix:=20beams=20that=20are=20empty,=20or?=
 =?UTF-8?q?=20larger=20than=20the=20grammar=20or=2065535,=20crashed=20Chom?=
 =?UTF-8?q?sky-Sch=C3=BCtzenberger=20parsing?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/grammars/lcfrs/csparsing/automaton/chart.rs | 8 ++++----
 src/grammars/lcfrs/csparsing/automaton/mod.rs   | 6 ++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/chart.rs b/src/grammars/lcfrs/csparsing/automaton/chart.rs
index 8b5b1d0..05b4f4d 100644
--- a/src/grammars/lcfrs/csparsing/automaton/chart.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/chart.rs
@@ -5,12 +5,12 @@ use std::ops::AddAssign;
 /// A chart for cfg parsing.
 #[derive(Debug, Clone)]
 pub struct DenseChart<W>(
-    Vec<u16>,         // no. of saved nonterminals per span
+    Vec<u32>,         // no. of saved nonterminals per span
     Vec<(StateT, W)>, // nonterminals with viterbi weigh per span (max <beam> entries)
     Vec<W>,           // viterbi weight per span and nonterminal
     usize,            // n
     usize,            // states
-    u16,              // max no. of constituents per span
+    u32,              // max no. of constituents per span
     Vec<Vec<RuleIdT>>, // terminal rules per position, sorted
 );
 
@@ -37,14 +37,14 @@ impl<W: Copy> DenseChart<W> {
     where
         W: Zero,
     {
-        assert!(bt_per_cell <= u16::max_value() as usize);
+        assert!(bt_per_cell <= u32::max_value() as usize);
         DenseChart(
             vec![ 0; chart_size(n) ],
             vec![ (0, W::zero()); chart_size(n) * bt_per_cell ],
             vec![ W::zero(); chart_size_with_states(n, states) ],
             n,
             states,
-            bt_per_cell as u16,
+            bt_per_cell as u32,
             vec![Vec::new(); n],
         )
     }
diff --git a/src/grammars/lcfrs/csparsing/automaton/mod.rs b/src/grammars/lcfrs/csparsing/automaton/mod.rs
index e7d5602..bacfce0 100644
--- a/src/grammars/lcfrs/csparsing/automaton/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/mod.rs
@@ -276,11 +276,17 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
     ) -> DenseChart<W> {
         let n = word.len();
         let nonterminals = self.0.len();
+        // there are at most as many constituents per span as there are nonterminals
+        let beam = beam.min(nonterminals);
 
         // contains the constituents ordered by weight
         let mut heap_of_nonterminals: BinaryHeap<(W, StateT)> = BinaryHeap::with_capacity(beam);
         let mut chart = DenseChart::new(n, nonterminals, beam);
 
+        if beam == 0 {
+            return chart;
+        }
+
         for range in 1..=n {
             for l in 0..=(n - range) {
                 let r = l + range;
-- 
2.43.0


From 1502f4c8fe41909f9c2b1ddd60f6431b3241efe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 33/37] =?UTF-8?q?fix:=20Chomsky-Sch=C3=BCtzenberger=20pars?=
 =?UTF-8?q?ing=20crashed=20on=20words=20of=20more=20than=20255=20symbols?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs |  4 ++--
 src/grammars/lcfrs/csparsing/automaton/mod.rs       | 10 +++++-----
 src/grammars/lcfrs/csparsing/mod.rs                 |  4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
index d5d60d7..6fb56bb 100644
--- a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
@@ -284,8 +284,8 @@ impl<'a, W: Ord + Copy + Mul<Output = W> + Zero> Iterator for ChartIterator<'a,
         let &mut ChartIterator { initial, n, k, .. } = self;
         self.k += 1;
 
-        self.kth(0u8, n as u8, initial, k)
-            .map(|(backtrace, _)| self.read(0u8, n as u8, &backtrace))
+        self.kth(0, n as RangeT, initial, k)
+            .map(|(backtrace, _)| self.read(0, n as RangeT, &backtrace))
     }
 }
 
diff --git a/src/grammars/lcfrs/csparsing/automaton/mod.rs b/src/grammars/lcfrs/csparsing/automaton/mod.rs
index bacfce0..06219aa 100644
--- a/src/grammars/lcfrs/csparsing/automaton/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/mod.rs
@@ -22,7 +22,7 @@ pub use self::rulemask::RuleMaskBuilder;
 
 pub type RuleIdT = u32;
 pub type StateT = u32;
-pub type RangeT = u8;
+pub type RangeT = u16;
 
 /// stores a lhs state and weight of a rule
 pub type BuRule<W> = (W, StateT);
@@ -297,7 +297,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                 if range == 1 {
                     if let Some(initials) = self.2.get(&word[l]) {
                         let rules = initials.iter().map(|&(rid, _)| rid).collect();
-                        chart.set_terminal_rules(l as u8, rules);
+                        chart.set_terminal_rules(l as RangeT, rules);
                         heap_of_nonterminals.extend(initials.iter().filter_map(|&(rid, (w, q))| {
                             if !rule_filter[rid as usize] {
                                 return None;
@@ -310,7 +310,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
 
                 // binary step
                 for mid in l + 1..r {
-                    for &(lnt, lew) in chart.iterate_nont(l as u8, mid as u8) {
+                    for &(lnt, lew) in chart.iterate_nont(l as RangeT, mid as RangeT) {
                         let available_rules = &self.0[lnt as usize];
                         let cache = (NOSTATE, None);
                         heap_of_nonterminals.extend(available_rules.iter().filter_map(
@@ -321,7 +321,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                                 let riw = if cache.0 == rnt {
                                     cache.1
                                 } else {
-                                    chart.get_weight(mid as u8, r as u8, rnt)
+                                    chart.get_weight(mid as RangeT, r as RangeT, rnt)
                                 }?;
                                 let _ = outsides.get(lhs, l, r, n)?;
                                 Some((lew * ruw * riw, lhs))
@@ -339,7 +339,7 @@ impl<T: Eq + Hash, W: Ord + Mul<Output = W> + Copy + Zero + One> Automaton<T, W>
                     if replace(&mut skip[q as usize], true) {
                         continue;
                     }
-                    chart.add_entry(l as u8, r as u8, q, w);
+                    chart.add_entry(l as RangeT, r as RangeT, q, w);
                     heap_of_nonterminals.extend(self.1[q as usize].iter().filter_map(
                         |&(rid, (rw, q))| {
                             if !rule_filter[rid as usize] {
diff --git a/src/grammars/lcfrs/csparsing/mod.rs b/src/grammars/lcfrs/csparsing/mod.rs
index 29a3cd8..d11e9c5 100644
--- a/src/grammars/lcfrs/csparsing/mod.rs
+++ b/src/grammars/lcfrs/csparsing/mod.rs
@@ -15,7 +15,7 @@ use std::{
     ops::Mul,
 };
 
-use self::automaton::{Automaton, RuleMaskBuilder, SxOutside};
+use self::automaton::{Automaton, RangeT, RuleMaskBuilder, SxOutside};
 
 /// The indices of a bracket in a CS representation for an lcfrs.
 /// Assumes integerized an itergerized set of (at most 2^32) rules and fanouts
@@ -220,7 +220,7 @@ where
             Automaton::from_grammar(rules_with_id, initial.clone())
         };
         let rulemaskbuilder = RuleMaskBuilder::new(rules.iter(), &initial);
-        let estimates = SxOutside::from_automaton(&generator, estimates_max_width as u8);
+        let estimates = SxOutside::from_automaton(&generator, estimates_max_width as RangeT);
 
         CSRepresentation {
             generator,
-- 
2.43.0


From b05691729140d0cc73676e302c1eda688f1eb161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 34/37] =?UTF-8?q?fix:=20chain=20rules=20of=20weight=20one?=
 =?UTF-8?q?=20could=20send=20Chomsky-Sch=C3=BCtzenberger=20parsing=20into?=
 =?UTF-8?q?=20an=20infinite=20recursion?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 .../lcfrs/csparsing/automaton/chart.rs        |  8 ++++++
 .../lcfrs/csparsing/automaton/kbest/mod.rs    | 26 ++++++++++++++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/grammars/lcfrs/csparsing/automaton/chart.rs b/src/grammars/lcfrs/csparsing/automaton/chart.rs
index 05b4f4d..93e4c32 100644
--- a/src/grammars/lcfrs/csparsing/automaton/chart.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/chart.rs
@@ -104,6 +104,14 @@ impl<W> DenseChart<W> {
         (self.3, self.4, self.5 as usize)
     }
 
+    /// Checks if the constituent `q1` was stored for a span before `q2`.
+    pub fn is_stored_before(&self, i: RangeT, j: RangeT, q1: StateT, q2: StateT) -> bool {
+        self.iterate_nont(i, j)
+            .map(|&(q, _)| q)
+            .take_while(|q| *q != q2)
+            .any(|q| q == q1)
+    }
+
     /// Iterates all constituents for a span.
     pub fn iterate_nont<'a>(
         &'a self,
diff --git a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
index 6fb56bb..91d1fdb 100644
--- a/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
+++ b/src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs
@@ -135,6 +135,30 @@ where
         heap
     }
 
+    /// Takes the best backtrace for a constituent. Among equally weighted backtraces, it
+    /// avoids chain rules over constituents that may themselves rely on this constituent.
+    fn pop_first(
+        chart: &DenseChart<W>,
+        backtraces: &mut FnvUniqueHeap<IndexedBacktrace<W>, W>,
+        i: RangeT,
+        j: RangeT,
+        q: StateT,
+    ) -> Option<(IndexedBacktrace<W>, W)> {
+        let mut skipped = Vec::new();
+        let mut first = backtraces.pop();
+        while let Some((IndexedBacktrace::Unary(_, q1, _, _), _)) = first {
+            if chart.is_stored_before(i, j, q1, q) {
+                break;
+            }
+            skipped.extend(first);
+            first = backtraces.pop();
+        }
+        for (backtrace, weight) in skipped {
+            backtraces.push(backtrace, weight);
+        }
+        first
+    }
+
     // Implementation of the lazy enumeration for hyperpaths in Better k-best Parsing.
     fn kth(
         &mut self,
@@ -160,7 +184,7 @@ where
                 Entry::Vacant(ve) => {
                     let mut bts =
                         Self::backtraces(chart, binaries, unaries, nullaries, &rulefilter, i, j, q);
-                    if let Some((first, vit)) = bts.pop() {
+                    if let Some((first, vit)) = Self::pop_first(chart, &mut bts, i, j, q) {
                         let mut vec = Vec::with_capacity(bts.len() + 1);
                         vec.push((first, vit));
                         ve.insert((vec, bts));
-- 
2.43.0


From 2dcf38c2f83912ed96bfdcf00e28e5ece70bb568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 35/37] fix: unreadable files and sentences in another encoding
 were taken for empty ones by the command line programs

---
 src/bin/approximation.rs       | 16 ++++++++--------
 src/bin/cfg.rs                 |  6 +++---
 src/bin/pmcfg.rs               |  6 +++---
 src/bin/tree_stack_automata.rs |  4 ++--
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/bin/approximation.rs b/src/bin/approximation.rs
index f06bc7a..f4eb332 100644
--- a/src/bin/approximation.rs
+++ b/src/bin/approximation.rs
@@ -114,7 +114,7 @@ pub fn handle_sub_matches(r_matches: &ArgMatches) {
                 let grammar_file_name = parse_matches.value_of("grammar").unwrap();
                 let mut grammar_file = File::open(grammar_file_name).unwrap();
                 let mut grammar_string = String::new();
-                let _ = grammar_file.read_to_string(&mut grammar_string);
+                grammar_file.read_to_string(&mut grammar_string).unwrap();
                 let g: CFG<String, String, LogDomain<f64>> = grammar_string.parse().unwrap();
 
                 let a = PushDownAutomaton::from(g);
@@ -122,7 +122,7 @@ pub fn handle_sub_matches(r_matches: &ArgMatches) {
                 let classes_file_name = parse_matches.value_of("classes").unwrap();
                 let mut classes_file = File::open(classes_file_name).unwrap();
                 let mut classes_string = String::new();
-                let _ = classes_file.read_to_string(&mut classes_string);
+                classes_file.read_to_string(&mut classes_string).unwrap();
                 let e: EquivalenceRelation<String, String> = classes_string.parse().unwrap();
 
                 let f = |ps: &PushState<_, _>| ps.map(|nt| e.project(nt));
@@ -131,7 +131,7 @@ pub fn handle_sub_matches(r_matches: &ArgMatches) {
                 let (b, _) = rlb.approximate_automaton(&a);
 
                 let mut corpus = String::new();
-                let _ = io::stdin().read_to_string(&mut corpus);
+                io::stdin().read_to_string(&mut corpus).unwrap();
 
                 for sentence in corpus.lines() {
                     println!(
@@ -146,7 +146,7 @@ pub fn handle_sub_matches(r_matches: &ArgMatches) {
                 let grammar_file_name = parse_matches.value_of("grammar").unwrap();
                 let mut grammar_file = File::open(grammar_file_name).unwrap();
                 let mut grammar_string = String::new();
-                let _ = grammar_file.read_to_string(&mut grammar_string);
+                grammar_file.read_to_string(&mut grammar_string).unwrap();
                 let g: CFG<String, String, LogDomain<f64>> = grammar_string.parse().unwrap();
 
                 let a = PushDownAutomaton::from(g);
@@ -154,7 +154,7 @@ pub fn handle_sub_matches(r_matches: &ArgMatches) {
                 let classes_file_name = parse_matches.value_of("classes").unwrap();
                 let mut classes_file = File::open(classes_file_name).unwrap();
                 let mut classes_string = String::new();
-                let _ = classes_file.read_to_string(&mut classes_string);
+                classes_file.read_to_string(&mut classes_string).unwrap();
                 let e: EquivalenceRelation<String, String> = classes_string.parse().unwrap();
 
                 let f = |ps: &PushState<_, _>| ps.map(|nt| e.project(nt));
@@ -171,7 +171,7 @@ pub fn handle_sub_matches(r_matches: &ArgMatches) {
                 let grammar_file_name = parse_matches.value_of("grammar").unwrap();
                 let mut grammar_file = File::open(grammar_file_name).unwrap();
                 let mut grammar_string = String::new();
-                let _ = grammar_file.read_to_string(&mut grammar_string);
+                grammar_file.read_to_string(&mut grammar_string).unwrap();
                 let g: PMCFG<String, String, LogDomain<f64>> = grammar_string.parse().unwrap();
 
                 let a = TreeStackAutomaton::from(g);
@@ -181,7 +181,7 @@ pub fn handle_sub_matches(r_matches: &ArgMatches) {
                 let (b, _) = tts.approximate_automaton(&a);
 
                 let mut corpus = String::new();
-                let _ = io::stdin().read_to_string(&mut corpus);
+                io::stdin().read_to_string(&mut corpus).unwrap();
 
                 for sentence in corpus.lines() {
                     println!(
@@ -196,7 +196,7 @@ pub fn handle_sub_matches(r_matches: &ArgMatches) {
                 let grammar_file_name = parse_matches.value_of("grammar").unwrap();
                 let mut grammar_file = File::open(grammar_file_name).unwrap();
                 let mut grammar_string = String::new();
-                let _ = grammar_file.read_to_string(&mut grammar_string);
+                grammar_file.read_to_string(&mut grammar_string).unwrap();
                 let g: PMCFG<String, String, LogDomain<f64>> = grammar_string.parse().unwrap();
 
                 let a = TreeStackAutomaton::from(g);
diff --git a/src/bin/cfg.rs b/src/bin/cfg.rs
index 6502bb1..688f1c0 100644
--- a/src/bin/cfg.rs
+++ b/src/bin/cfg.rs
@@ -62,13 +62,13 @@ pub fn handle_sub_matches(cfg_matches: &ArgMatches) {
                 .parse()
                 .unwrap();
             let mut grammar_string = String::new();
-            let _ = grammar_file.read_to_string(&mut grammar_string);
+            grammar_file.read_to_string(&mut grammar_string).unwrap();
             let grammar: CFG<String, String, LogDomain<f64>> = grammar_string.parse().unwrap();
 
             let automaton = PushDownAutomaton::from(grammar);
 
             let mut corpus = String::new();
-            let _ = io::stdin().read_to_string(&mut corpus);
+            io::stdin().read_to_string(&mut corpus).unwrap();
 
             for sentence in corpus.lines() {
                 let word = sentence.split_whitespace().map(|x| x.to_string()).collect();
@@ -94,7 +94,7 @@ pub fn handle_sub_matches(cfg_matches: &ArgMatches) {
             let grammar_file_name = cfg_automaton_matches.value_of("grammar").unwrap();
             let mut grammar_file = File::open(grammar_file_name).unwrap();
             let mut grammar_string = String::new();
-            let _ = grammar_file.read_to_string(&mut grammar_string);
+            grammar_file.read_to_string(&mut grammar_string).unwrap();
             let grammar: CFG<String, String, LogDomain<f64>> = grammar_string.parse().unwrap();
 
             let automaton = PushDownAutomaton::from(grammar);
diff --git a/src/bin/pmcfg.rs b/src/bin/pmcfg.rs
index 3d93d21..8e6a416 100644
--- a/src/bin/pmcfg.rs
+++ b/src/bin/pmcfg.rs
@@ -70,13 +70,13 @@ pub fn handle_sub_matches(mcfg_matches: &ArgMatches) {
                 .parse()
                 .unwrap();
             let mut grammar_string = String::new();
-            let _ = grammar_file.read_to_string(&mut grammar_string);
+            grammar_file.read_to_string(&mut grammar_string).unwrap();
             let grammar: PMCFG<String, String, LogDomain<f64>> = grammar_string.parse().unwrap();
 
             let automaton = TreeStackAutomaton::from(grammar);
 
             let mut corpus = String::new();
-            let _ = io::stdin().read_to_string(&mut corpus);
+            io::stdin().read_to_string(&mut corpus).unwrap();
 
             for (i, sentence) in corpus.lines().enumerate() {
                 let word = sentence.split_whitespace().map(|x| x.to_string()).collect();
@@ -112,7 +112,7 @@ pub fn handle_sub_matches(mcfg_matches: &ArgMatches) {
             let grammar_file_name = mcfg_automaton_matches.value_of("grammar").unwrap();
             let mut grammar_file = File::open(grammar_file_name).unwrap();
             let mut grammar_string = String::new();
-            let _ = grammar_file.read_to_string(&mut grammar_string);
+            grammar_file.read_to_string(&mut grammar_string).unwrap();
             let grammar: PMCFG<String, String, LogDomain<f64>> = grammar_string.parse().unwrap();
             let automaton = TreeStackAutomaton::from(grammar);
             println!("{}", automaton);
diff --git a/src/bin/tree_stack_automata.rs b/src/bin/tree_stack_automata.rs
index b149be6..3c8c6fa 100644
--- a/src/bin/tree_stack_automata.rs
+++ b/src/bin/tree_stack_automata.rs
@@ -60,12 +60,12 @@ pub fn handle_sub_matches(tsa_matches: &ArgMatches) {
             let automaton_file_name = tsa_recognise_matches.value_of("automaton").unwrap();
             let mut automaton_file = File::open(automaton_file_name).unwrap();
             let mut automaton_string = String::new();
-            let _ = automaton_file.read_to_string(&mut automaton_string);
+            automaton_file.read_to_string(&mut automaton_string).unwrap();
             let automaton: TreeStackAutomaton<String, String, LogDomain<f64>> =
                 automaton_string.parse().unwrap();
 
             let mut corpus_raw = String::new();
-            let _ = io::stdin().read_to_string(&mut corpus_raw);
+            io::stdin().read_to_string(&mut corpus_raw).unwrap();
             let corpus = corpus_raw
                 .lines()
                 .map(|s| s.split_whitespace().map(|x| x.to_string()).collect())
-- 
2.43.0


From 607b0b32b0297fd34fd68daa1703cf00421699f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 36/37] fix: the option --coarse-to-fine of tsa recognise was
 ignored

---
 src/bin/tree_stack_automata.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bin/tree_stack_automata.rs b/src/bin/tree_stack_automata.rs
index 3c8c6fa..e393c50 100644
--- a/src/bin/tree_stack_automata.rs
+++ b/src/bin/tree_stack_automata.rs
@@ -48,7 +48,6 @@ pub fn get_sub_command() -> App<'static, 'static> {
                         .short("ctf")
                         .long("coarse-to-fine")
                         .value_name("strategies")
-                        .default_value("")
                         .required(false),
                 ),
         )
@@ -82,7 +81,7 @@ pub fn handle_sub_matches(tsa_matches: &ArgMatches) {
                 None => None,
             };
 
-            match tsa_recognise_matches.value_of("strategies") {
+            match tsa_recognise_matches.value_of("coarse-to-fine") {
                 Some("tts") => {
                     let rec = coarse_to_fine_recogniser!(automaton; TTSElement::new());
 
-- 
2.43.0


From 1d21093b9d5f6b69eb5c1222dcda2fcffdb1493e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:20 +0000
Subject: [PATCH 37/37] fix: allocate the space of a LimitedHeap when it is
 needed

The capacity was allocated in advance, so that a beam of, e.g., usize::MAX
elements (practically no limit) led to a panic or exhausted the memory.
---
 search/src/agenda/limited_heap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search/src/agenda/limited_heap.rs b/search/src/agenda/limited_heap.rs
index ced5878..ae6422c 100644
--- a/search/src/agenda/limited_heap.rs
+++ b/search/src/agenda/limited_heap.rs
@@ -17,7 +17,7 @@ where
 impl<I, W: Ord> LimitedHeap<I, W> {
     pub fn with_capacity(capacity: usize) -> Self {
         LimitedHeap {
-            heap: MinMaxHeap::with_capacity(capacity),
+            heap: MinMaxHeap::new(),
             capacity,
         }
     }
-- 
2.43.0

