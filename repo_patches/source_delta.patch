From 4c1a37fea6609bcb085d2da712b75264e5744eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:56 +0000
Subject: [PATCH 1/9] hook: re-export constraint types and parser error under
 cfg libronda_sim

---
 core/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 8c6070e..6df453f 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -30,3 +30,11 @@ pub use crate::version::spec_trees::{
 pub use crate::version::CompOp;
 pub use crate::version::Version;
 pub use crate::version::VersionPart;
+
+// Simulation hook, off by default: lets an external harness name the constraint types and the
+// parser's error type. Enabled only by `--cfg libronda_sim`.
+#[cfg(libronda_sim)]
+pub use crate::version::{
+    errors::VersionParsingError,
+    spec_trees::{Spec, VersionSpec},
+};
-- 
2.43.0


From 99105d98382cc61fbd99b6905e5935fe06b1b36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:27 +0000
Subject: [PATCH 2/9] fix: read_repodata returns an error when the file can't
 be read

It unwrapped the result of reading the file, so a missing or unreadable file, an I/O error
half-way, or bytes that are not UTF-8 panicked instead of being returned as an error.
---
 core/src/repodata/repodata.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/repodata/repodata.rs b/core/src/repodata/repodata.rs
index 434f1de..3743c94 100644
--- a/core/src/repodata/repodata.rs
+++ b/core/src/repodata/repodata.rs
@@ -47,7 +47,9 @@ pub struct Repodata {
 }
 
 pub fn read_repodata<'a, P: AsRef<Path>>(path: P) -> Result<Repodata, serde_json::error::Error> {
-    let file = std::fs::read_to_string(path).unwrap();
+    // Failing to read the file (including text that is not UTF-8) is reported like any other
+    // reason why it can't be loaded.
+    let file = std::fs::read_to_string(path).map_err(<serde_json::Error as de::Error>::custom)?;
     // Read the JSON contents of the file as an instance of `Repodata`.
     let r = serde_json::from_str(&file)?;
 
-- 
2.43.0


From 7233b2eead7d4379c16649be9ba738d9a3933c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 3/9] fix: conda_parser refuses an epoch that is not a small
 number

It unwrapped the conversion of the epoch, so a version such as "a!1.0" or "!1" panicked
(and with it the load of a whole index) instead of being refused.
---
 core/src/version/parsers/conda.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/version/parsers/conda.rs b/core/src/version/parsers/conda.rs
index fd89175..54279c1 100644
--- a/core/src/version/parsers/conda.rs
+++ b/core/src/version/parsers/conda.rs
@@ -16,7 +16,10 @@ pub fn conda_parser(
     let epoch_split: Vec<&str> = version.split("!").collect();
     let post_epoch_split: &str = match epoch_split.len() {
         2 => {
-            parts.push(VersionPart::Epoch(epoch_split[0].parse().unwrap()));
+            let epoch = epoch_split[0].parse().map_err(|_| {
+                VersionParsingError::Message(format!("invalid epoch in version {}", version))
+            })?;
+            parts.push(VersionPart::Epoch(epoch));
             epoch_split[1]
         },
         1 => {
-- 
2.43.0


From f1540de07da8672cadeded3191252b19af110994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 4/9] fix: load versions whose JSON text contains escapes

The version was deserialized as a borrowed string, which fails for any string with an escape
("1\u002e0"), so a valid index was refused.
---
 core/src/repodata/repodata.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/repodata/repodata.rs b/core/src/repodata/repodata.rs
index 3743c94..a821a04 100644
--- a/core/src/repodata/repodata.rs
+++ b/core/src/repodata/repodata.rs
@@ -24,8 +24,9 @@ fn deserialize_json_str_to_version<'de, D>(deserializer: D) -> Result<Version, D
     where
         D: de::Deserializer<'de>,
 {
-    let s: &str = Deserialize::deserialize(deserializer)?;
-    match Version::parse(s, &conda_parser) {
+    // An owned string: JSON text that contains escapes can't be borrowed from the input.
+    let s: String = Deserialize::deserialize(deserializer)?;
+    match Version::parse(&s, &conda_parser) {
         Ok(v) => Ok(v),
         Err(_e) => Err(de::Error::custom("Version parsing error"))
     }
-- 
2.43.0


From 54f6015982e652babeb9e96a7dad1997d4ac00f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:18 +0000
Subject: [PATCH 5/9] fix: get_matcher refuses malformed version constraints
 with an error

An empty constraint, one that starts with a multi-byte character, an operator that doesn't exist,
a malformed version or an invalid regular expression panicked instead of being refused.
---
 core/src/version/matching.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index c2ebf99..ba079d3 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -35,8 +35,10 @@ pub(crate) fn create_match_enum_from_operator_str(
         v_str = &v_str[..v_str.len() - 2];
     }
     let matcher = MatchOperator {
-        operator: CompOp::from_sign(operator_str).unwrap(),
-        version: v_str.into(),
+        operator: CompOp::from_sign(operator_str).map_err(|_| {
+            VersionParsingError::Message(format!("invalid operator in string {}", input))
+        })?,
+        version: v_str.parse()?,
     };
     let _is_exact = operator_str == "==";
     Ok((matcher.into(), _is_exact))
@@ -63,6 +65,13 @@ impl Default for MatchEnum {
     }
 }
 
+/// Compile the regular expression that the given spec stands for.
+fn compile_regex(expression: &str, spec: &str) -> Result<Regex, VersionParsingError> {
+    Regex::new(expression).map_err(|e| {
+        VersionParsingError::Message(format!("invalid regex in spec '{}': {}", spec, e))
+    })
+}
+
 pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError> {
     lazy_static! {
         static ref REGEX_SPLIT_RE: Regex = Regex::new(r#".*[()|,^$]"#).unwrap();
@@ -81,10 +90,14 @@ pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError
                 input
             )));
         }
-        let re = Regex::new(input).unwrap();
+        let re = compile_regex(input, input)?;
         matcher = MatchRegex { expression: re }.into();
         _is_exact = false;
-    } else if OPERATOR_START.contains(&input[..1]) {
+    } else if input.is_empty() {
+        return Err(VersionParsingError::Message(
+            "empty version spec".to_string(),
+        ));
+    } else if input.get(..1).map_or(false, |c| OPERATOR_START.contains(c)) {
         let res = create_match_enum_from_operator_str(input);
         match res {
             Ok((_m, _e)) => {
@@ -101,20 +114,20 @@ pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError
             .replace(".", r"\.")
             .replace("+", r"\+")
             .replace("*", r".*");
-        let rx: Regex = Regex::new(&format!(r"^(?:{})$", rx)).unwrap();
+        let rx: Regex = compile_regex(&format!(r"^(?:{})$", rx), input)?;
         matcher = MatchRegex { expression: rx }.into();
         _is_exact = false;
     } else if input.ends_with("*") {
         matcher = MatchOperator {
             operator: CompOp::StartsWith,
-            version: input.trim_end_matches(|c| c == '*' || c == '.').into(),
+            version: input.trim_end_matches(|c| c == '*' || c == '.').parse()?,
         }
         .into();
         _is_exact = false;
     } else if !input.contains("@") {
         matcher = MatchOperator {
             operator: CompOp::Eq,
-            version: input.into(),
+            version: input.parse()?,
         }
         .into();
         _is_exact = true;
-- 
2.43.0


From e9877a7b1b1d4282a22877194eba3952c4fe1652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:18 +0000
Subject: [PATCH 6/9] fix: building or rendering a constraint tree passes
 errors on

treeify and ConstraintTree::try_from unwrapped the conversion of their terms (and indexed an
empty list), and combine unwrapped that of nested trees, so malformed text panicked although
all of them return a Result.
---
 core/src/version/spec_trees.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index ebe2142..fe0880f 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -84,7 +84,7 @@ impl ConstraintTree {
                     str_parts.push(match item {
                         VersionSpecOrConstraintTree::VersionSpec(s) => s.get_spec().to_string(),
                         VersionSpecOrConstraintTree::ConstraintTree(cj) => {
-                            cj.combine(self.combinator == Combinator::And, true).unwrap()
+                            cj.combine(self.combinator == Combinator::And, true)?
                         }
                     });
                 }
@@ -150,14 +150,14 @@ impl TryFrom<Vec<&str>> for ConstraintTree
 {
     type Error = VersionParsingError;
     fn try_from(input: Vec<&str>) -> Result<Self, Self::Error> {
-        let combinator = match input[0].borrow() {
-            "," => Combinator::And,
-            "|" => Combinator::Or,
+        let combinator = match input.first() {
+            Some(&",") => Combinator::And,
+            Some(&"|") => Combinator::Or,
             _ => return Err(VersionParsingError::Message(format!("Unknown first value in vec of str used as ConstraintTree")))
         };
         let tree = ConstraintTree {
             combinator,
-            parts: input[1..].iter().map(|x| VersionSpecOrConstraintTree::try_from(x.clone()).unwrap()).collect()
+            parts: input[1..].iter().map(|x| VersionSpecOrConstraintTree::try_from(*x)).collect::<Result<_, _>>()?
         };
         Ok(tree)
     }
@@ -297,7 +297,8 @@ fn _treeify(spec_str: String) -> Result<ConstraintTree, String> {
                         combinator: Combinator::None,
                         parts: vec![VersionSpecOrConstraintTree::ConstraintTree(output)]};
                 }
-                output.parts.push(VersionSpecOrConstraintTree::VersionSpec(VersionSpec::try_from(item).unwrap()))
+                let spec = VersionSpec::try_from(item).map_err(|e| e.to_string())?;
+                output.parts.push(VersionSpecOrConstraintTree::VersionSpec(spec))
             }
         }
     }
-- 
2.43.0


From e2587be421238f676ca3fd9e3e9757f0297d6c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:33 +0000
Subject: [PATCH 7/9] fix: constraint trees can always be shown

Debug for VersionSpecOrConstraintTree formatted itself and so never ended (stack overflow), and
get_spec and Debug of a tree panicked if the tree was empty, as in treeify("()").
---
 core/src/version/spec_trees.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index fe0880f..2b1fe8b 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -41,7 +41,8 @@ pub struct ConstraintTree {
 // Not sure tw
 impl Spec for ConstraintTree{
     fn get_spec(&self) -> String {
-        untreeify(&VersionSpecOrConstraintTree::ConstraintTree(self.clone())).unwrap()
+        // a tree that can't be written as a spec (an empty one) has no text
+        self.combine(false, false).unwrap_or_default()
     }
     fn is_exact(&self) -> bool {
         return false
@@ -133,7 +134,10 @@ impl PartialEq for VersionSpecOrConstraintTree {
 
 impl fmt::Debug for VersionSpecOrConstraintTree {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{:#?}", self)
+        match self {
+            VersionSpecOrConstraintTree::VersionSpec(s) => fmt::Debug::fmt(&s.get_spec(), f),
+            VersionSpecOrConstraintTree::ConstraintTree(t) => fmt::Debug::fmt(t, f),
+        }
     }
 }
 
-- 
2.43.0


From 0a6daaaacb4abd5c3e7df034399bdb0d30e9acea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 8/9] fix: comparing versions goes on after extra places that
 equal nothing

When one version has more places than the other, the first extra place that equals the empty one
ended the comparison as equal, so 1 and 1.0.1 compared equal (and sorting was inconsistent:
1.0 < 1.0.1 while 1 == 1.0 and 1 == 1.0.1).
---
 core/src/version/version.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/version/version.rs b/core/src/version/version.rs
index 0ec9730..5ef41a6 100644
--- a/core/src/version/version.rs
+++ b/core/src/version/version.rs
@@ -274,23 +274,23 @@ impl Version {
                 (Some(i), Some(j)) => match i.partial_cmp(j) {
                     Some(Ordering::Greater) => return CompOp::Gt,
                     Some(Ordering::Less) => return CompOp::Lt,
-                    // This is the only loop branch that continues
                     Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
 
                 // first version has more places. get_empty is a type-specific value that is "zero"
-                //     or whatever the equivalent is for a type (e.g. empty string)
+                //     or whatever the equivalent is for a type (e.g. empty string). A place that equals it
+                //     decides nothing: the places after it still may (1 == 1.0, but 1 < 1.0.1)
                 (Some(i), None) => match i.partial_cmp(&&i.get_empty()) {
                     Some(Ordering::Less) => return CompOp::Lt,
                     Some(Ordering::Greater) => return CompOp::Gt,
-                    Some(Ordering::Equal) => return CompOp::Eq,
+                    Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
                 (None, Some(j)) => match &j.get_empty().partial_cmp(j) {
                     Some(Ordering::Less) => return CompOp::Lt,
                     Some(Ordering::Greater) => return CompOp::Gt,
-                    Some(Ordering::Equal) => return CompOp::Eq,
+                    Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
 
-- 
2.43.0


From 70c52949f44b1249c952a73ce659228a06b1c980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 9/9] fix: a constraint expression of a single constraint
 matches what the constraint matches

---
 core/src/version/spec_trees.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 2b1fe8b..ad3924e 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -55,7 +55,8 @@ impl Spec for ConstraintTree{
         return match self.combinator {
             Combinator::And => self.parts.iter().all(|x| x.borrow().test_match_version(other)),
             Combinator::Or => self.parts.iter().any(|x| x.borrow().test_match_version(other)),
-            Combinator::None => false,
+            // an expression that is a single constraint has nothing to combine
+            Combinator::None => self.parts.len() == 1 && self.parts[0].test_match_version(other),
         }
     }
 }
-- 
2.43.0

