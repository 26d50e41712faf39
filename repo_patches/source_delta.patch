From 51888dcc9c5a7d2666ba03fe62238e7390774fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:04 +0000
Subject: [PATCH 1/4] fix: stop repeating when pattern and separator both match
 the empty string

`parser!(("a"?)*)`, or any repetition whose item (and separator) can match
the empty string, looped forever, allocating iterators until memory ran out.
---
 src/parsers/repeat.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/parsers/repeat.rs b/src/parsers/repeat.rs
index 236d1c9..2d386d3 100644
--- a/src/parsers/repeat.rs
+++ b/src/parsers/repeat.rs
@@ -100,6 +100,16 @@ where
         }
     }
 
+    /// True if we've just matched `pattern` and then `sep` without consuming
+    /// any text.
+    fn last_round_was_empty(&self) -> bool {
+        match *self.sep_iters.as_slice() {
+            [] => false,
+            [ref sep] => sep.match_end() == self.start,
+            [.., ref prev_sep, ref sep] => sep.match_end() == prev_sep.match_end(),
+        }
+    }
+
     /// Precondition: Either there are no iters or we just successfully
     /// backtracked the foremost iter.
     ///
@@ -114,6 +124,11 @@ where
 
             if self.is_pattern_next() {
                 let start = self.end();
+                if self.last_round_was_empty() {
+                    // Both `pattern` and `sep` just matched the empty string.
+                    // They would do so again here, forever.
+                    return Err(Reported);
+                }
                 let iter = self.params.pattern.parse_iter(context, start)?;
                 self.pattern_iters.push(iter);
             }
-- 
2.43.0


From 98b248f1735b21d58eaa2e66f43604c0d8fa7e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:07 +0000
Subject: [PATCH 2/4] fix: end a section that starts at a blank line there

`section(p)` matches zero or more nonblank lines followed by a blank line.
At a blank line it looked for the next "\n\n" instead, so that the section
contained blank lines: `section(lines(string(any_char*)))` matched all of
"\nabc\n\n" as one section, ["", "abc"].
---
 src/parsers/lines.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/lines.rs b/src/parsers/lines.rs
index bc20a83..5b51432 100644
--- a/src/parsers/lines.rs
+++ b/src/parsers/lines.rs
@@ -84,6 +84,10 @@ impl Region for Section {
         // section at end of input. presumably not repeat forever. (why does
         // this not always hang forever if you try to use `sections`?)
         let source = context.source();
+        if source[start..].starts_with('\n') {
+            // already at a blank line: the section has no lines
+            return Ok((start, start + 1));
+        }
         match source[start..].find("\n\n") {
             // ending at a blank line
             Some(index) => Ok((start + index + 1, start + index + 2)),
-- 
2.43.0


From 871be116db57c7bbf516afeabec3ed73564d6efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:09 +0000
Subject: [PATCH 3/4] fix: name binary digits in the error message of digit_bin

---
 src/parsers/chars.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/chars.rs b/src/parsers/chars.rs
index f2b50ef..7bd9d75 100644
--- a/src/parsers/chars.rs
+++ b/src/parsers/chars.rs
@@ -130,7 +130,7 @@ pub const digit: MapParser<CharParser, fn(char) -> usize> = MapParser {
 #[allow(non_upper_case_globals)]
 pub const digit_bin: MapParser<CharParser, fn(char) -> usize> = MapParser {
     inner: CharParser {
-        noun: "hexadecimal digit",
+        noun: "binary digit",
         predicate: |c| c.is_digit(2),
     },
     mapper: |c| c.to_digit(2).unwrap() as usize,
-- 
2.43.0


From 59c5fd3159abe24ae109fe53e8323eee93515829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 4/4] fix: make an alternation with one arm a single value,
 like any other

---
 src/macros.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index c1e7fe8..864cf5a 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -425,9 +425,10 @@ macro_rules! aoc_parse_helper {
         ::core::compile_error("no arms in alternation")
     };
 
-    // end of alternation after comma
+    // end of alternation after comma; like a parenthesized group, an alternation
+    // is a single value, even if it has just one arm
     (@list [ ] [ ] [ $out:expr ]) => {
-        $out
+        $crate::macros::single_value($out)
     };
 
     // end of alternation with no comma: infer one
-- 
2.43.0

