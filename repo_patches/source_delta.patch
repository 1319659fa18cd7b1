From 948ef3dcf435eb2315941fc4c7d9ad456d9fba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:21 +0000
Subject: [PATCH 01/12] fix: keep the already inserted patterns of an entry
 when it gets another child pattern

Entry::insert replaced the existing child of an entry by an empty one, so
that adding a pattern lost the earlier ones which shared its first token.
---
 src/matcher/suffix_array/interface.rs | 6 ++++--
 src/matcher/trie/node/interface.rs    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/matcher/suffix_array/interface.rs b/src/matcher/suffix_array/interface.rs
index 3d74608..0ed5966 100644
--- a/src/matcher/suffix_array/interface.rs
+++ b/src/matcher/suffix_array/interface.rs
@@ -18,8 +18,10 @@ pub trait Entry {
         if pattern.pattern().is_empty() {
             self.set_pattern(Some(pattern));
         } else {
-            let sa = Self::SA::new();
-            self.set_child(Some(sa));
+            if self.child().is_none() {
+                let sa = Self::SA::new();
+                self.set_child(Some(sa));
+            }
             self.child_mut().expect("Failed to get a child").insert(pattern);
         }
     }
diff --git a/src/matcher/trie/node/interface.rs b/src/matcher/trie/node/interface.rs
index 321dcdd..17dbbee 100644
--- a/src/matcher/trie/node/interface.rs
+++ b/src/matcher/trie/node/interface.rs
@@ -18,8 +18,10 @@ pub trait Entry {
         if pattern.pattern().is_empty() {
             self.set_pattern(Some(pattern));
         } else {
-            let sa = Self::ST::new();
-            self.set_child(Some(sa));
+            if self.child().is_none() {
+                let sa = Self::ST::new();
+                self.set_child(Some(sa));
+            }
             self.child_mut().expect("Failed to get a child").insert(pattern);
         }
     }
-- 
2.43.0


From c3f3b283aac67d23290d910f4423e62923af11bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:46 +0000
Subject: [PATCH 02/12] fix: match a pattern which ends at a parser that other
 patterns continue

A parser entry with both an own pattern and children handed the empty
remainder of the message to its children only, so the pattern ending there
was never found.
---
 src/matcher/suffix_array/impls.rs | 4 +++-
 src/matcher/trie/node/parser.rs   | 8 ++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/matcher/suffix_array/impls.rs b/src/matcher/suffix_array/impls.rs
index 6c0a378..a7654b0 100644
--- a/src/matcher/suffix_array/impls.rs
+++ b/src/matcher/suffix_array/impls.rs
@@ -187,7 +187,9 @@ impl ParserEntry for ParserE {
         self.parser.parse(value).and_then(|kvpair| {
             let value = value.ltrunc(kvpair.value().len());
 
-            if let Some(child) = self.child() {
+            if value.is_empty() && self.pattern().is_some() {
+                self.create_match_result(kvpair)
+            } else if let Some(child) = self.child() {
                 child.parse(value).and_then(|mut result| {
                     result.insert(kvpair);
                     Some(result)
diff --git a/src/matcher/trie/node/parser.rs b/src/matcher/trie/node/parser.rs
index 52b1def..5deb488 100644
--- a/src/matcher/trie/node/parser.rs
+++ b/src/matcher/trie/node/parser.rs
@@ -39,10 +39,10 @@ impl ParserNode {
             let text = text.ltrunc(parsed_kwpair.value().len());
 
             return match self.node() {
-                Some(node) => {
+                Some(node) if !(text.is_empty() && self.pattern().is_some()) => {
                     node.parse_then_push_kvpair(text, parsed_kwpair)
                 }
-                None => {
+                _ => {
                     self.push_last_kvpair(text, parsed_kwpair)
                 }
             };
@@ -90,10 +90,10 @@ impl ParserEntry for ParserNode {
             let text = value.ltrunc(parsed_kwpair.value().len());
 
             return match self.node() {
-                Some(node) => {
+                Some(node) if !(text.is_empty() && self.pattern().is_some()) => {
                     node.parse_then_push_kvpair(text, parsed_kwpair)
                 }
-                None => {
+                _ => {
                     self.push_last_kvpair(text, parsed_kwpair)
                 }
             };
-- 
2.43.0


From 43084b4caff8f8386dcc0fb91d1b65c9349caefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:50 +0000
Subject: [PATCH 03/12] fix: try all the alternatives of a trie node before
 giving up on a message

The trie followed the literals greedily: it never visited what follows the
empty rest of a split literal, and when the literal branch was a dead end it
did not fall back to the parsers on the way, so that patterns got lost.
---
 src/matcher/trie/node/literal.rs | 12 +++++++++
 src/matcher/trie/node/mod.rs     | 42 ++++++++++++--------------------
 2 files changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/matcher/trie/node/literal.rs b/src/matcher/trie/node/literal.rs
index 292cd39..124179d 100644
--- a/src/matcher/trie/node/literal.rs
+++ b/src/matcher/trie/node/literal.rs
@@ -3,6 +3,7 @@ use utils::common_prefix::CommonPrefix;
 
 use matcher::trie::node::SuffixTree;
 use matcher::Pattern;
+use matcher::result::MatchResult;
 
 use matcher::trie::node::interface::{Entry, LiteralEntry};
 
@@ -91,6 +92,17 @@ impl LiteralNode {
         self.literal = common_prefix.to_owned();
     }
 
+    pub fn parse<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
+        if !text.starts_with(self.literal()) {
+            return None;
+        }
+        let text = text.ltrunc(self.literal().len());
+        match self.pattern() {
+            Some(pattern) if text.is_empty() => Some(MatchResult::new(pattern)),
+            _ => self.node().and_then(|node| node.parse(text)),
+        }
+    }
+
     pub fn is_leaf(&self) -> bool {
         self.node.is_none()
     }
diff --git a/src/matcher/trie/node/mod.rs b/src/matcher/trie/node/mod.rs
index e6c0a51..b1684d3 100644
--- a/src/matcher/trie/node/mod.rs
+++ b/src/matcher/trie/node/mod.rs
@@ -160,32 +160,22 @@ impl SuffixTree {
 
     pub fn parse<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
         trace!("parse(): text = {}", text);
-        match self.lookup_literal(text) {
-            Ok((node, pos)) => {
-                trace!("{:?}", node);
-                let child = node.literal_children
-                                .get(pos)
-                                .expect("Failed to get a looked up child");
-                SuffixTree::create_match_result_if_child_is_leaf(child)
-            }
-            Err((node, remaining_len)) => {
-                let text = text.ltrunc(text.len() - remaining_len);
-                trace!("parse(): text = {}", text);
-                trace!("parse(): #parser_children = {}", node.parser_children.len());
-                node.parse_with_parsers(text)
-            }
-        }
-    }
-
-    fn create_match_result_if_child_is_leaf<'a, 'b>(child: &'a LiteralNode)
-                                                    -> Option<MatchResult<'a, 'b>> {
-        if let Some(pattern) = child.pattern() {
-            let result = MatchResult::new(pattern);
-            Some(result)
-        } else {
-            info!("Early matching message: the message was too short to reach a leaf");
-            None
-        }
+        self.parse_with_literal(text, text)
+            .or_else(|| if text.is_empty() { None } else { self.parse_with_literal("", text) })
+            .or_else(|| self.parse_with_parsers(text))
+    }
+
+    // There is at most one literal child which begins like the text, and the
+    // empty one is what remains of a literal when its continuations are split off
+    fn parse_with_literal<'a, 'b>(&'a self,
+                                  beginning: &str,
+                                  text: &'b str)
+                                  -> Option<MatchResult<'a, 'b>> {
+        self.literal_children
+            .binary_search_by(|probe| probe.cmp_str(beginning))
+            .ok()
+            .and_then(|pos| self.literal_children.get(pos))
+            .and_then(|child| child.parse(text))
     }
 
     fn parse_with_parsers<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
-- 
2.43.0


From d0297c47c3f86d54ed6bb679e62d7adb906c06aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:08 +0000
Subject: [PATCH 04/12] fix: compare whole literals in the suffix array and try
 every alternative

A literal entry was entered when the message shared only a part of it, so
that truncated messages matched; shorter literals and the parsers were not
tried when a longer literal had a common prefix with the message.
---
 src/matcher/suffix_array/impls.rs | 37 ++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/matcher/suffix_array/impls.rs b/src/matcher/suffix_array/impls.rs
index a7654b0..c39f6e7 100644
--- a/src/matcher/suffix_array/impls.rs
+++ b/src/matcher/suffix_array/impls.rs
@@ -60,6 +60,22 @@ impl SuffixTable {
         }
     }
 
+    fn parse_with_literals<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
+        let max_len = self.longest_common_prefix(value)
+                          .map_or(0, |entry| entry.literal().common_prefix_len(value));
+        for len in (0..max_len + 1).rev().filter(|len| value.is_char_boundary(*len)) {
+            let (literal, value) = value.split_at(len);
+            let result = self.literal_entries.binary_search_by(|probe| {
+                let s: &str = probe.literal().borrow();
+                s.cmp(literal)
+            });
+            if let Some(result) = result.ok().and_then(|pos| self.literal_entries[pos].parse(value)) {
+                return Some(result);
+            }
+        }
+        None
+    }
+
     fn parse_with_parsers<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
         for parser in &self.parser_entries {
             if let Some(result) = parser.parse(value) {
@@ -220,6 +236,13 @@ impl LiteralE {
             child: None
         }
     }
+
+    fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
+        match self.pattern() {
+            Some(pattern) if value.is_empty() => Some(MatchResult::new(pattern)),
+            _ => self.child().and_then(|child| child.parse(value)),
+        }
+    }
 }
 
 impl Entry for LiteralE {
@@ -249,19 +272,7 @@ impl LiteralEntry for LiteralE {
 
 impl Matcher for SuffixTable {
     fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
-        if let Some(child) = self.longest_common_prefix(value) {
-            let common_prefix_len = child.literal().common_prefix_len(value);
-            if common_prefix_len == value.len() {
-                child.pattern().and_then(|pattern| Some(MatchResult::new(pattern)))
-            } else if common_prefix_len < value.len() {
-                let value = value.ltrunc(common_prefix_len);
-                child.child().and_then(|child| child.parse(value))
-            } else {
-                None
-            }
-        } else {
-            self.parse_with_parsers(value)
-        }
+        self.parse_with_literals(value).or_else(|| self.parse_with_parsers(value))
     }
     fn add_pattern(&mut self, pattern: Pattern) {
         self.insert(pattern);
-- 
2.43.0


From 1f545cf3ea30c1020d88d6ff726ac649a760f533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:09 +0000
Subject: [PATCH 05/12] fix: compare the first characters of literals instead
 of their first bytes

Slicing the first byte off a literal panicked when its first character was
a multi-byte one.
---
 src/matcher/trie/node/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/trie/node/literal.rs b/src/matcher/trie/node/literal.rs
index 124179d..6f0f91e 100644
--- a/src/matcher/trie/node/literal.rs
+++ b/src/matcher/trie/node/literal.rs
@@ -57,7 +57,7 @@ impl LiteralNode {
         } else if other.is_empty() {
             Ordering::Greater
         } else {
-            self.literal[0..1].cmp(&other[0..1])
+            self.literal.chars().next().cmp(&other.chars().next())
         }
     }
 
-- 
2.43.0


From c7a8c736333a1153c7feca230c06f977140fb535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:28 +0000
Subject: [PATCH 06/12] fix: let the SET parser work with characters instead of
 bytes

With a multi-byte character in the set it accepted parts of other
characters and panicked when it cut the message inside of one.
---
 src/parsers/set.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/parsers/set.rs b/src/parsers/set.rs
index 80f84b7..e100eb9 100644
--- a/src/parsers/set.rs
+++ b/src/parsers/set.rs
@@ -7,7 +7,7 @@ use parsers::{Parser, ObjectSafeHash, ParseResult, ParserBase, HasLengthConstrai
 #[derive(Clone, Debug, Hash)]
 pub struct SetParser {
     base: ParserBase,
-    character_set: BTreeSet<u8>,
+    character_set: BTreeSet<char>,
     min_length: Option<usize>,
     max_length: Option<usize>,
 }
@@ -39,23 +39,25 @@ impl SetParser {
         self.character_set = SetParser::create_set_from_str(set);
     }
 
-    fn create_set_from_str(set: &str) -> BTreeSet<u8> {
-        let vset: Vec<u8> = set.bytes().collect();
-        BTreeSet::from_iter(vset)
+    fn create_set_from_str(set: &str) -> BTreeSet<char> {
+        BTreeSet::from_iter(set.chars())
     }
 
-    fn calculate_match_length(&self, value: &str) -> usize {
+    // the number of the matching characters and their length in bytes
+    fn calculate_match_length(&self, value: &str) -> (usize, usize) {
         let mut match_len = 0;
+        let mut byte_len = 0;
 
-        for c in value.bytes() {
+        for c in value.chars() {
             if self.character_set.contains(&c) {
                 match_len += 1;
+                byte_len += c.len_utf8();
             } else {
                 break;
             }
         }
 
-        match_len
+        (match_len, byte_len)
     }
 }
 
@@ -76,10 +78,10 @@ impl HasLengthConstraint for SetParser {
 
 impl Parser for SetParser {
     fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<ParseResult<'a, 'b>> {
-        let match_len = self.calculate_match_length(value);
+        let (match_len, byte_len) = self.calculate_match_length(value);
 
         if self.is_match_length_ok(match_len) {
-            Some(ParseResult::new(self, &value[..match_len]))
+            Some(ParseResult::new(self, &value[..byte_len]))
         } else {
             None
         }
-- 
2.43.0


From d8747e7acf0d0a950636a94e942c0b4a57abda9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:50 +0000
Subject: [PATCH 07/12] fix: reject a length which does not fit into usize
 instead of panicking

---
 src/grammar/parser/pattern.rustpeg   |  2 +-
 src/grammar/parser/pattern_parser.rs | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/grammar/parser/pattern.rustpeg b/src/grammar/parser/pattern.rustpeg
index 98a6b33..87be424 100644
--- a/src/grammar/parser/pattern.rustpeg
+++ b/src/grammar/parser/pattern.rustpeg
@@ -102,4 +102,4 @@ all_chars_until_quotation_mark -> &'input str
 comma = "," " "*
 
 int -> usize
-  = [0-9]+ { usize::from_str(match_str).ok().unwrap() }
+  = [0-9]+ {? usize::from_str(match_str).map_err(|_| "number that fits into usize") }
diff --git a/src/grammar/parser/pattern_parser.rs b/src/grammar/parser/pattern_parser.rs
index b51f65a..5366e7e 100644
--- a/src/grammar/parser/pattern_parser.rs
+++ b/src/grammar/parser/pattern_parser.rs
@@ -1187,9 +1187,13 @@ fn parse_int<'input, F: ParserFactory>(input: &'input str,
                 Matched(pos, _) => {
                     {
                         let match_str = &input[start_pos..pos];
-                        Matched(pos, {
-                            usize::from_str(match_str).ok().unwrap()
-                        })
+                        match usize::from_str(match_str) {
+                            Ok(value) => Matched(pos, value),
+                            Err(_) => {
+                                state.mark_failure(pos, "number that fits into usize");
+                                Failed
+                            }
+                        }
                     }
                 }
                 Failed => Failed,
-- 
2.43.0


From 6b4dd21618a8d4b37dc9f3992f940951ef933c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:09 +0000
Subject: [PATCH 08/12] fix: unescape the literal after a GREEDY parser like
 every other literal

---
 src/grammar/parser/pattern.rustpeg   | 4 ++--
 src/grammar/parser/pattern_parser.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/grammar/parser/pattern.rustpeg b/src/grammar/parser/pattern.rustpeg
index 87be424..cdd0ee8 100644
--- a/src/grammar/parser/pattern.rustpeg
+++ b/src/grammar/parser/pattern.rustpeg
@@ -52,9 +52,9 @@ parser_INT_optional_params -> Vec<OptionalParameter<'input>>
 parser_GREEDY -> Vec<TokenType>
   = PARSER_BEGIN GREEDY name:parser_name? PARSER_END end_string:literal? {
     let mut tokens = Vec::new();
-    let parser = F::new_greedy(name, end_string);
+    let end_string = end_string.map(|string| grammar::unescape_literal(string));
+    let parser = F::new_greedy(name, end_string.as_ref().map(|string| &string[..]));
     tokens.push(TokenType::Parser(parser));
-    let end_string = end_string.map(|string| string.to_string());
     if let Some(end_string) = end_string {
       tokens.push(TokenType::Literal(end_string));
     }
diff --git a/src/grammar/parser/pattern_parser.rs b/src/grammar/parser/pattern_parser.rs
index 5366e7e..fae0ca6 100644
--- a/src/grammar/parser/pattern_parser.rs
+++ b/src/grammar/parser/pattern_parser.rs
@@ -598,13 +598,13 @@ fn parse_parser_GREEDY<'input, F: ParserFactory>(input: &'input str,
                                                                                 {
                                                                                     let mut tokens =
                                                                                         Vec::new();
+                                                                                    let end_string =
+                                                                                        end_string.map(|string|
+                                                                                                           grammar::unescape_literal(string));
                                                                                     let parser =
                                                                                         F::new_greedy(name,
-                                                                                                      end_string);
+                                                                                                      end_string.as_ref().map(|string| &string[..]));
                                                                                     tokens.push(TokenType::Parser(parser));
-                                                                                    let end_string =
-                                                                                        end_string.map(|string|
-                                                                                                           string.to_owned());
                                                                                     if let Some(end_string)
                                                                                            =
                                                                                            end_string
-- 
2.43.0


From 4839962555af3b8d12af2573cb29e450b0dfc688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:10 +0000
Subject: [PATCH 09/12] fix: report it when a pattern file cannot be read

The error of read_to_string() was ignored, so that a directory or a file
which is not valid UTF-8 was taken for an empty document.
---
 src/matcher/pattern_loader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/pattern_loader.rs b/src/matcher/pattern_loader.rs
index d3076f8..d57c2fb 100644
--- a/src/matcher/pattern_loader.rs
+++ b/src/matcher/pattern_loader.rs
@@ -17,7 +17,7 @@ impl PatternLoader {
     {
         let mut buffer = String::new();
         let mut file = try!(File::open(pattern_file_path));
-        let _ = file.read_to_string(&mut buffer);
+        try!(file.read_to_string(&mut buffer));
         Ok(buffer)
     }
 
-- 
2.43.0


From 7a1f5af005a58054e644f1820234c0b7300fa874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:11 +0000
Subject: [PATCH 10/12] fix: name the missing field when a pattern has no uuid

---
 src/matcher/pattern/deser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/pattern/deser.rs b/src/matcher/pattern/deser.rs
index 66cb75f..ba129e2 100644
--- a/src/matcher/pattern/deser.rs
+++ b/src/matcher/pattern/deser.rs
@@ -99,7 +99,7 @@ impl serde::de::Visitor for PatternVisitor {
             }
         };
 
-        let uuid = try!(uuid.ok_or(serde::de::Error::missing_field("pattern")));
+        let uuid = try!(uuid.ok_or(serde::de::Error::missing_field("uuid")));
 
         try!(visitor.end());
 
-- 
2.43.0


From 271b59867378e1e963a9e61b82601e2cc1abdace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:12 +0000
Subject: [PATCH 11/12] fix: count the carriage returns when the position of a
 syntax error is calculated

---
 src/grammar/parser/pattern_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/parser/pattern_parser.rs b/src/grammar/parser/pattern_parser.rs
index fae0ca6..8211246 100644
--- a/src/grammar/parser/pattern_parser.rs
+++ b/src/grammar/parser/pattern_parser.rs
@@ -93,7 +93,7 @@ fn any_char(input: &str, state: &mut ParseState, pos: usize) -> RuleResult<()> {
 fn pos_to_line(input: &str, pos: usize) -> (usize, usize) {
     let mut remaining = pos;
     let mut lineno: usize = 1;
-    for line in input.lines() {
+    for line in input.split('\n') {
         let line_length = line.len() + 1;
         if remaining < line_length {
             return (lineno, remaining + 1);
-- 
2.43.0


From 7349753caba78e068220fde3dfe0aefc7e366d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:20 +0000
Subject: [PATCH 12/12] fix: accept a test message which expects no tags of a
 pattern without tags

---
 src/matcher/pattern/testmessage/message.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/matcher/pattern/testmessage/message.rs b/src/matcher/pattern/testmessage/message.rs
index 7b912a9..e605fb1 100644
--- a/src/matcher/pattern/testmessage/message.rs
+++ b/src/matcher/pattern/testmessage/message.rs
@@ -83,13 +83,10 @@ impl TestMessage {
 
     fn test_tags(&self, result: &MatchResult) -> Result<(), Error> {
         if let Some(expected_tags) = self.tags() {
-            if let Some(got_tags) = result.pattern().tags() {
-                try!(self.test_expected_tags_can_be_found_in_got_tags(expected_tags,
-                                                                      got_tags,
-                                                                      result));
-            } else {
-                return Err(self.report_unexpected_tags_error(result));
-            }
+            let got_tags = result.pattern().tags().unwrap_or(&[]);
+            try!(self.test_expected_tags_can_be_found_in_got_tags(expected_tags,
+                                                                  got_tags,
+                                                                  result));
         }
         Ok(())
     }
-- 
2.43.0

