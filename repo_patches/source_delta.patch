From 99103a5a0eaf08dd9827c06bd46cf7eee2863dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 01/11] fix: loop of the empty language with lower bound 0 is
 epsilon

---
 src/regular_expressions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/regular_expressions.rs b/src/regular_expressions.rs
index 02a5b4f..4092a31 100644
--- a/src/regular_expressions.rs
+++ b/src/regular_expressions.rs
@@ -1355,7 +1355,9 @@ impl ReManager {
             e
         } else {
             match &e.expr {
-                // empty ^ [i, j] --> empty
+                // empty ^ [0, j] --> epsilon
+                BaseRegLan::Empty if range.start() == 0 => self.epsilon,
+                // empty ^ [i, j] --> empty if i > 0
                 BaseRegLan::Empty => self.empty,
                 // epsilon ^ [i, j] --> epsilon
                 BaseRegLan::Epsilon => self.epsilon,
-- 
2.43.0


From 8e88ecfe04104a968b1d4601751bcfe7aceefc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:55 +0000
Subject: [PATCH 02/11] fix: interval_cover compares with the start of the next
 interval

---
 src/character_sets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/character_sets.rs b/src/character_sets.rs
index d7093f0..67801b1 100644
--- a/src/character_sets.rs
+++ b/src/character_sets.rs
@@ -935,7 +935,7 @@ impl CharPartition {
             }
         } else {
             // note: we know i < p.len() <= MAX_CHAR so i+1 can't overflow here
-            let next_ai = self.end(i + 1);
+            let next_ai = self.start(i + 1);
             if b < next_ai {
                 // a_i <= b_i < a <= b < a_{i+1}
                 CoverResult::DisjointFromAll
-- 
2.43.0


From fcd21a3b8969551613b4f67f8bb3429df52d55d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:58 +0000
Subject: [PATCH 03/11] fix: str_indexof accepts a start index equal to the
 string length

---
 src/smt_strings.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index 988370b..38452fd 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -760,9 +760,9 @@ pub fn str_contains(s1: &SmtString, s2: &SmtString) -> bool {
 ///
 /// Index of the first occurrence of s2 in s1, starting from index i
 ///
-/// - If 0 <= i < s1.len and s2 occurs in s1[i ..] then return the index j >= i
+/// - If 0 <= i <= s1.len and s2 occurs in s1[i ..] then return the index j >= i
 ///   of the first occurrence of s2 in s1[i ..].
-/// - Return -1 if i < 0 or i >= s1.len or s2 does not occur in s1[i ..]
+/// - Return -1 if i < 0 or i > s1.len or s2 does not occur in s1[i ..]
 ///
 /// # Examples
 /// ```
@@ -779,7 +779,7 @@ pub fn str_contains(s1: &SmtString, s2: &SmtString) -> bool {
 /// ```
 ///
 pub fn str_indexof(s1: &SmtString, s2: &SmtString, i: i32) -> i32 {
-    if i < 0 || i >= s1.len() as i32 {
+    if i < 0 || i as usize > s1.len() {
         -1
     } else {
         match find_sub_vector(&s2.s, &s1.s, i as usize) {
-- 
2.43.0


From 6671eea53a82b5633c37f8aba499bfa14506b80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 04/11] fix: escape backslashes when printing a string literal

---
 src/smt_strings.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index 38452fd..6603e57 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -387,12 +387,16 @@ pub fn smt_char_as_string(x: u32) -> String {
 // Convert to an ASCII string in the SMT syntax
 // - use escape sequences for non-printable ASCII characters and non-ASCII characters
 // - convert "  to ""
+// - use an escape sequence for backslash, so that it can't be read back as the start
+//   of an escape sequence
 impl fmt::Display for SmtString {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(f, "\"")?;
         for &x in self.s.iter() {
             if x == '"' as u32 {
                 write!(f, "\"\"")?;
+            } else if x == '\\' as u32 {
+                write!(f, "\\u{{5c}}")?;
             } else if x >= 32 && x < 127 {
                 write!(f, "{}", char::from_u32(x).unwrap())?;
             } else if x < 32 || x == 127 {
-- 
2.43.0


From 177b9ae2b87bf80e24b977d691c55d4d9797849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:25 +0000
Subject: [PATCH 05/11] fix: detect overflow in str_to_int in every build
 profile

---
 src/smt_strings.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index 6603e57..46954e3 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -944,21 +944,17 @@ pub fn str_from_code(x: i32) -> SmtString {
 /// assert_eq!(str_to_int(&SmtString::from("101aaabb")), -1);
 /// ```
 pub fn str_to_int(s: &SmtString) -> i32 {
-    if s.is_empty() {
+    if s.is_empty() || !s.s.iter().all(|&d| char_is_digit(d)) {
         return -1;
     }
 
     let mut x: i32 = 0;
     for &d in &s.s {
-        if char_is_digit(d) {
-            let y = 10 * x + (d as i32 - '0' as i32);
-            if y < x {
-                panic!("Arithmetic overflow in str_to_int");
-            }
-            x = y;
-        } else {
-            return -1;
-        }
+        let digit = d as i32 - '0' as i32;
+        x = match x.checked_mul(10).and_then(|y| y.checked_add(digit)) {
+            Some(y) => y,
+            None => panic!("Arithmetic overflow in str_to_int"),
+        };
     }
     x
 }
-- 
2.43.0


From 43dfe0c392003afe3ae757eea53eff41d7c85d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 06/11] fix: is_good accepts strings of length MAX_LENGTH

---
 src/smt_strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index 46954e3..8ae378a 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -64,7 +64,7 @@ impl SmtString {
     /// Check whether this is a good string
     pub fn is_good(&self) -> bool {
         let n = self.s.len();
-        n < MAX_LENGTH as usize && good_string(&self.s)
+        n <= MAX_LENGTH as usize && good_string(&self.s)
     }
 
     /// Check whether all SMT chars are valid unicode
-- 
2.43.0


From a6b0d0030d182aa79409f8482d95ebbd0164a6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:56 +0000
Subject: [PATCH 07/11] fix: strings built from Rust text contain only SMT
 characters

---
 src/smt_strings.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index 8ae378a..cbf19b5 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -40,6 +40,15 @@ pub struct SmtString {
     s: Vec<u32>,
 }
 
+// Convert integer x to an SMT character
+fn to_smt_char(x: u32) -> u32 {
+    if x <= MAX_CHAR {
+        x
+    } else {
+        REPLACEMENT_CHAR
+    }
+}
+
 /// The empty string
 pub const EMPTY: SmtString = SmtString { s: vec![] };
 
@@ -109,6 +118,8 @@ impl AsRef<[u32]> for SmtString {
 ///
 /// Construct an SmtString from a UTF8 string x
 ///
+/// Any character of x that's not in the range [0, 0x2ffff] is replaced by 0xfffd.
+///
 /// # Example
 /// ```
 /// use aws_smt_strings::smt_strings::*;
@@ -118,7 +129,7 @@ impl AsRef<[u32]> for SmtString {
 /// ```
 impl From<&str> for SmtString {
     fn from(x: &str) -> Self {
-        SmtString::make(x.chars().map(|c| c as u32).collect())
+        SmtString::make(x.chars().map(|c| to_smt_char(c as u32)).collect())
     }
 }
 
@@ -180,9 +191,11 @@ impl From<u32> for SmtString {
 ///
 /// Construct a single-character string from character x.
 ///
+/// Convert x to 0xfffd if it's not a valid SMT character (i.e., if x is larger than 0x2ffff)
+///
 impl From<char> for SmtString {
     fn from(x: char) -> SmtString {
-        SmtString::make(vec![x as u32])
+        SmtString::make(vec![to_smt_char(x as u32)])
     }
 }
 
@@ -221,8 +234,9 @@ fn new_automaton() -> ParsingAutomaton {
 
 impl ParsingAutomaton {
     // add char x to the string so far
+    // (or the replacement character if x is not an SMT character)
     fn push(&mut self, x: char) {
-        self.string_so_far.push(x as u32);
+        self.string_so_far.push(to_smt_char(x as u32));
     }
 
     // add char x to the pending array
@@ -329,6 +343,8 @@ impl ParsingAutomaton {
 /// Parse a string literal in the SMT-LIB syntax and
 /// convert it to an SmtString.
 ///
+/// Any character of the literal that's not in the range [0, 0x2ffff] is replaced by 0xfffd.
+///
 /// # Example
 /// ```
 /// use aws_smt_strings::smt_strings::*;
-- 
2.43.0


From ce39a6be3c2038f993aa8d930c698ed68990172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 08/11] fix: right_mul_is_exact doesn't panic on large bounds

---
 src/loop_ranges.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/loop_ranges.rs b/src/loop_ranges.rs
index 697ab1e..ed3200a 100644
--- a/src/loop_ranges.rs
+++ b/src/loop_ranges.rs
@@ -354,7 +354,9 @@ impl LoopRange {
                 // c = other.start()
                 // b = self.end()
                 // a = self.start()
-                mul32(other.start(), self.end() - self.start()) >= self.start().saturating_sub(1)
+                // the product may not fit in 32 bits
+                let width = self.end() - self.start();
+                other.start().saturating_mul(width) >= self.start().saturating_sub(1)
             }
     }
 
-- 
2.43.0


From 796294f421ffbdf30346d5c6cd1c11a2fdb31350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 09/11] fix: AutomatonBuilder::build checks the transitions as
 given

---
 src/automata.rs       | 44 ++++++++++++++++++++++++++++++++++++-------
 src/character_sets.rs |  5 +++++
 2 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/src/automata.rs b/src/automata.rs
index b22341d..2fb70be 100644
--- a/src/automata.rs
+++ b/src/automata.rs
@@ -539,7 +539,7 @@ impl<'a> Iterator for FinalStateIterator<'a> {
     }
 }
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 struct StateInConstruction {
     is_final: bool,
     default_successor: Option<usize>,
@@ -615,6 +615,32 @@ impl StateInConstruction {
         self.remove_transitions_to_default();
     }
 
+    // Copy of this state with overlapping transitions merged if they have
+    // the same successor.
+    // - fails if two overlapping transitions have distinct successors
+    fn merge_transitions(&self) -> Result<StateInConstruction, Error> {
+        let mut sorted = self.transitions.clone();
+        sorted.sort_by_key(|(set, _)| set.start());
+        let mut transitions: Vec<(CharSet, usize)> = Vec::with_capacity(sorted.len());
+        for (set, next) in sorted {
+            match transitions.last_mut() {
+                Some((last, last_next)) if last.inter(&set).is_some() => {
+                    if *last_next != next {
+                        return Err(Error::NonDisjointCharSets);
+                    }
+                    // the union is an interval since last and set overlap
+                    *last = last.union(&set).unwrap();
+                }
+                _ => transitions.push((set, next)),
+            }
+        }
+        Ok(StateInConstruction {
+            is_final: self.is_final,
+            default_successor: self.default_successor,
+            transitions,
+        })
+    }
+
     fn make_partition(&self) -> Result<CharPartition, Error> {
         CharPartition::try_from_iter(self.transitions.iter().map(|x| x.0))
     }
@@ -706,7 +732,8 @@ impl<T: Eq + Hash + Clone> AutomatonBuilder<T> {
     ///
     /// Construct an automaton
     /// - fails if a state `s` has non-deterministic transitions,
-    ///   i.e., if two distinct transitions from s have non-disjoint labels (i.e., character sets).
+    ///   i.e., if two transitions from s to distinct successors have non-disjoint labels
+    ///   (i.e., character sets).
     /// - fails if a state `s` has a default successor but its transitions
     ///   already cover the full alphabet.
     /// - fails if a state `s` doesn't have a default successor but its
@@ -716,15 +743,17 @@ impl<T: Eq + Hash + Clone> AutomatonBuilder<T> {
         let n = self.size;
         let mut num_final_states = 0;
         let mut state_array = Vec::with_capacity(n);
-        for (i, s) in self.states.iter_mut().enumerate() {
+        for (i, s) in self.states.iter().enumerate() {
+            // check the transitions as they were given, before cleanup
+            let mut s = s.merge_transitions()?;
+            if s.default_successor.is_none() && !s.make_partition()?.empty_complement() {
+                return Err(Error::MissingDefaultSuccessor);
+            }
             s.cleanup();
             let p = s.make_partition()?;
             if s.default_successor.is_some() && p.empty_complement() {
                 return Err(Error::EmptyComplementaryClass);
             }
-            if s.default_successor.is_none() && !p.empty_complement() {
-                return Err(Error::MissingDefaultSuccessor);
-            }
             let successor = s.make_successor(&p);
             if s.is_final {
                 num_final_states += 1;
@@ -753,7 +782,8 @@ impl<T: Eq + Hash + Clone> AutomatonBuilder<T> {
         let num_states = self.size;
         let mut num_final_states = 0;
         let mut state_array = Vec::with_capacity(num_states);
-        for (i, s) in self.states.iter_mut().enumerate() {
+        for (i, s) in self.states.iter().enumerate() {
+            let mut s = s.clone();
             s.cleanup();
             let p = s.make_partition().unwrap();
             let successor = s.make_successor(&p);
diff --git a/src/character_sets.rs b/src/character_sets.rs
index 67801b1..2168d1b 100644
--- a/src/character_sets.rs
+++ b/src/character_sets.rs
@@ -247,6 +247,11 @@ impl CharSet {
         self.start
     }
 
+    // smallest element of this set
+    pub(crate) fn start(&self) -> u32 {
+        self.start
+    }
+
     /// Intersection of two intervals
     ///
     /// - return None if the intersection is empty
-- 
2.43.0


From 7a2a489e79a452e12cda19670326a7698dc988d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 10/11] fix: start_char is exact for intersections and
 concatenations

---
 src/regular_expressions.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/regular_expressions.rs b/src/regular_expressions.rs
index 4092a31..4433896 100644
--- a/src/regular_expressions.rs
+++ b/src/regular_expressions.rs
@@ -1870,12 +1870,13 @@ impl ReManager {
             BaseRegLan::Epsilon => false,
             BaseRegLan::Range(set) => set.contains(c),
             BaseRegLan::Concat(e1, e2) => {
-                self.start_char(e1, c) || e1.nullable && self.start_char(e2, c)
+                // e2 may be empty even if it's not BaseRegLan::Empty
+                self.start_char(e1, c) && !self.is_empty_re(e2)
+                    || e1.nullable && self.start_char(e2, c)
             }
             BaseRegLan::Loop(e, _) => self.start_char(e, c),
-            BaseRegLan::Inter(args) => args.iter().all(|x| self.start_char(x, c)),
             BaseRegLan::Union(args) => args.iter().any(|x| self.start_char(x, c)),
-            BaseRegLan::Complement(_) => {
+            BaseRegLan::Inter(_) | BaseRegLan::Complement(_) => {
                 // expensive case
                 let d = self.deriv(e, c);
                 !self.is_empty_re(d)
-- 
2.43.0


From 3bf24e179dfd00d0149ddead48e917d9fd31afab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:11 +0000
Subject: [PATCH 11/11] fix: minimize doesn't panic when a block has no
 predecessors

A block of states without predecessors has no splitters, so the splitter
list may have no entry for it when the block is itself split.
---
 src/minimizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/minimizer.rs b/src/minimizer.rs
index 8c287cb..04e852a 100644
--- a/src/minimizer.rs
+++ b/src/minimizer.rs
@@ -219,7 +219,11 @@ impl SplitterSet {
     }
 
     fn take_list(&mut self, b: u32) -> SplitterList {
-        std::mem::take(&mut self.list[b as usize])
+        // a block with no predecessors has no splitters so list may be shorter than b
+        self.list
+            .get_mut(b as usize)
+            .map(std::mem::take)
+            .unwrap_or_default()
     }
 
     fn add_splitter(&mut self, s: &Splitter) {
-- 
2.43.0

