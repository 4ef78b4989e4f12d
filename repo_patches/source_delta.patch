From fbbb64f5b69ad6b9df4483ccabacfdf220f4414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 01/57] fix: an unterminated template literal ends at the end
 of the source instead of reading past it

---
 ratel/src/lexer/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 923361b..ae3bfa6 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -775,6 +775,10 @@ impl<'arena> Lexer<'arena> {
                         _ => self.bump()
                     }
                 },
+                0 => {
+                    self.token = UnexpectedEndOfProgram;
+                    return;
+                },
                 _ => self.bump()
             }
         }
-- 
2.43.0


From 8d43254d47d667f0af2b475d5511e8e623face4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 02/57] fix: an unterminated regular expression ends at the end
 of the source instead of reading past it

---
 ratel/src/lexer/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index ae3bfa6..da2a333 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -1018,6 +1018,10 @@ impl<'arena> Lexer<'arena> {
                     self.token = UnexpectedToken;
                     return "";
                 },
+                0 => {
+                    self.token = UnexpectedEndOfProgram;
+                    return "";
+                },
                 _     => self.bump()
             }
         }
-- 
2.43.0


From 1518d8f5c00bc88a959622c65644b113a7e891d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 03/57] fix: read exactly one character when an identifier
 starts with a non-ASCII one, and step over one that cannot start an
 identifier

---
 ratel/src/lexer/mod.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index da2a333..0d1dee0 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -457,19 +457,14 @@ const PRC: ByteHandler = Some(|lex| {
 
 // Unicode character
 const UNI: ByteHandler = Some(|lex| {
-    let start = lex.index;
+    let first = lex.read_char();
 
-    // TODO: unicodes with different lengths
-    let first = lex.slice_source(start, start + 4).chars().next().expect("Has to have one");
+    lex.index += first.len_utf8();
 
     if !first.is_alphanumeric() {
         return lex.token = UnexpectedToken;
     }
 
-    // `read_label` bumps one at the beginning,
-    // so we subtract it here.
-    lex.index += first.len_utf8() - 1;
-
     lex.read_label();
 
     lex.token = Identifier;
@@ -818,6 +813,20 @@ impl<'arena> Lexer<'arena> {
         unsafe { *self.ptr.add(self.index) }
     }
 
+    /// Read the whole character at the current index, which has to be on a
+    /// character boundary.
+    #[inline]
+    fn read_char(&self) -> char {
+        let len = match self.read_byte() {
+            0x00..=0x7F => 1,
+            0x80..=0xDF => 2,
+            0xE0..=0xEF => 3,
+            _           => 4,
+        };
+
+        self.slice_source(self.index, self.index + len).chars().next().expect("Has to have one")
+    }
+
     /// Manually increment the index. Calling `read_byte` and then `bump`
     /// is equivalent to consuming a byte on an iterator.
     #[inline]
-- 
2.43.0


From fe92b232f72f74963700efcdbf7a54549017aafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 04/57] fix: a member access stops at the end of the source and
 takes non-ASCII property names

---
 ratel/src/lexer/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 0d1dee0..2b1b0f8 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -891,12 +891,24 @@ impl<'arena> Lexer<'arena> {
         unwind_loop!({
             ch = self.read_byte();
 
+            if ch == 0 {
+                return self.token = UnexpectedEndOfProgram;
+            }
+
             if ch > 0x20 {
                 self.accessor_start = self.index;
 
                 if ch > 127 {
-                    unimplemented!();
-                    // return unicode(self)
+                    let first = self.read_char();
+
+                    self.index += first.len_utf8();
+
+                    if !first.is_alphanumeric() {
+                        return self.token = UnexpectedToken;
+                    }
+
+                    self.read_label();
+                    return self.token = Accessor;
                 } else if TABLE[ch as usize] {
                     self.read_label();
                     return self.token = Accessor;
-- 
2.43.0


From fff48dfcbed3033fbbe76327d573f9054d8987cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 05/57] fix: a line terminator before or inside of a comment
 ends the statement, and any number of comments takes constant stack

---
 ratel/src/lexer/mod.rs | 101 ++++++++++++++++++++++++++++-------------
 1 file changed, 69 insertions(+), 32 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 2b1b0f8..b821d95 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -397,39 +397,15 @@ const ATR: ByteHandler = Some(|lex| {
 // /
 const SLH: ByteHandler = Some(|lex| {
     lex.token = match lex.next_byte() {
-        // regular comment
-        b'/' => {
-            // Keep consuming bytes until new line or end of source
-            unwind_loop!({
-                match lex.next_byte() {
-                    0 | b'\n' => {
-                        return lex.consume();
-                    }
-                    _ => {}
-                }
-            });
-        },
+        // regular or block comment
+        b'/' | b'*' => {
+            lex.index -= 1;
 
-        // block comment
-        b'*' => {
-            lex.bump();
-            // Keep consuming bytes until */ happens in a row
-            unwind_loop!({
-                match lex.read_byte() {
-                    b'*' => {
-                        match lex.next_byte() {
-                            b'/' => {
-                                lex.bump();
-                                return lex.consume();
-                            },
-                            0 => return lex.token = UnexpectedEndOfProgram,
-                            _ => {}
-                        }
-                    },
-                    0 => return lex.token = UnexpectedEndOfProgram,
-                    _ => lex.bump()
-                }
-            });
+            if !lex.skip_trivia() {
+                return lex.token = UnexpectedEndOfProgram;
+            }
+
+            return lex.read_token();
         },
 
         b'=' => {
@@ -652,6 +628,11 @@ impl<'arena> Lexer<'arena> {
     pub fn consume(&mut self) {
         self.asi = Asi::NoSemicolon;
 
+        self.read_token();
+    }
+
+    #[inline]
+    fn read_token(&mut self) {
         let mut ch;
 
         unwind_loop!({
@@ -670,6 +651,62 @@ impl<'arena> Lexer<'arena> {
         })
     }
 
+    /// Skip any number of white space characters and comments, noting down line
+    /// terminators for Automatic Semicolon Insertion. Returns `false` if the source
+    /// ends inside of a block comment.
+    fn skip_trivia(&mut self) -> bool {
+        loop {
+            match self.read_byte() {
+                0 => return true,
+                b'\n' => {
+                    self.bump();
+                    self.asi = Asi::ImplicitSemicolon;
+                },
+                b'/' => {
+                    match self.next_byte() {
+                        b'/' => {
+                            // Keep consuming bytes until new line or end of source
+                            while match self.read_byte() {
+                                0 | b'\n' => false,
+                                _ => true,
+                            } {
+                                self.bump();
+                            }
+                        },
+                        b'*' => {
+                            self.bump();
+
+                            // Keep consuming bytes until */ happens in a row
+                            loop {
+                                match self.read_byte() {
+                                    0 => return false,
+                                    b'*' => {
+                                        if let b'/' = self.next_byte() {
+                                            self.bump();
+                                            break;
+                                        }
+                                    },
+                                    b'\n' => {
+                                        self.bump();
+                                        self.asi = Asi::ImplicitSemicolon;
+                                    },
+                                    _ => self.bump()
+                                }
+                            }
+                        },
+                        _ => {
+                            self.index -= 1;
+
+                            return true;
+                        }
+                    }
+                },
+                0x01..=0x20 => self.bump(),
+                _ => return true,
+            }
+        }
+    }
+
     /// Create an `&str` slice from source spanning current token.
     #[inline]
     pub fn token_as_str(&self) -> &'arena str {
-- 
2.43.0


From e2bf55a9d9d066407347de75992283df515b1a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 06/57] fix: comments may stand between a dot and the property
 name, and a token other than a name after the dot is part of the error

---
 ratel/src/lexer/mod.rs | 50 ++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index b821d95..1f0abaa 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -923,39 +923,41 @@ impl<'arena> Lexer<'arena> {
           AL, AL, AL, AL, AL, AL, AL, AL, AL, AL, AL, __, __, __, __, __, // 7
         ];
 
-        let mut ch;
-
-        unwind_loop!({
-            ch = self.read_byte();
-
-            if ch == 0 {
-                return self.token = UnexpectedEndOfProgram;
-            }
+        let asi = self.asi;
 
-            if ch > 0x20 {
-                self.accessor_start = self.index;
+        if !self.skip_trivia() {
+            return self.token = UnexpectedEndOfProgram;
+        }
 
-                if ch > 127 {
-                    let first = self.read_char();
+        self.asi = asi;
+        self.accessor_start = self.index;
 
-                    self.index += first.len_utf8();
+        self.token = match self.read_byte() {
+            0 => UnexpectedEndOfProgram,
+            ch if ch > 127 => {
+                let first = self.read_char();
 
-                    if !first.is_alphanumeric() {
-                        return self.token = UnexpectedToken;
-                    }
+                self.index += first.len_utf8();
 
+                if first.is_alphanumeric() {
                     self.read_label();
-                    return self.token = Accessor;
-                } else if TABLE[ch as usize] {
-                    self.read_label();
-                    return self.token = Accessor;
+
+                    Accessor
                 } else {
-                    return self.token = UnexpectedToken;
+                    UnexpectedToken
                 }
-            }
+            },
+            ch if TABLE[ch as usize] => {
+                self.read_label();
 
-            self.bump();
-        })
+                Accessor
+            },
+            _ => {
+                self.bump();
+
+                UnexpectedToken
+            }
+        };
     }
 
     #[inline]
-- 
2.43.0


From e92f1881db79dffc6668e186a09a5ddf6f70a67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 07/57] fix: a carriage return is a line terminator of its own,
 and none may stand in a regular expression

---
 ratel/src/lexer/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 1f0abaa..85bb744 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -645,7 +645,7 @@ impl<'arena> Lexer<'arena> {
 
             self.bump();
 
-            if ch == b'\n' {
+            if ch == b'\n' || ch == b'\r' {
                 self.asi = Asi::ImplicitSemicolon;
             }
         })
@@ -658,7 +658,7 @@ impl<'arena> Lexer<'arena> {
         loop {
             match self.read_byte() {
                 0 => return true,
-                b'\n' => {
+                b'\n' | b'\r' => {
                     self.bump();
                     self.asi = Asi::ImplicitSemicolon;
                 },
@@ -667,7 +667,7 @@ impl<'arena> Lexer<'arena> {
                         b'/' => {
                             // Keep consuming bytes until new line or end of source
                             while match self.read_byte() {
-                                0 | b'\n' => false,
+                                0 | b'\n' | b'\r' => false,
                                 _ => true,
                             } {
                                 self.bump();
@@ -686,7 +686,7 @@ impl<'arena> Lexer<'arena> {
                                             break;
                                         }
                                     },
-                                    b'\n' => {
+                                    b'\n' | b'\r' => {
                                         self.bump();
                                         self.asi = Asi::ImplicitSemicolon;
                                     },
@@ -1070,10 +1070,15 @@ impl<'arena> Lexer<'arena> {
                             self.token = UnexpectedEndOfProgram;
                             return "";
                         },
+                        b'\n' | b'\r' => {
+                            self.bump();
+                            self.token = UnexpectedToken;
+                            return "";
+                        },
                         _ => self.bump()
                     }
                 },
-                b'\n' => {
+                b'\n' | b'\r' => {
                     self.bump();
                     self.token = UnexpectedToken;
                     return "";
-- 
2.43.0


From 4e4827c577eb4eea4430f1dde95581bb976f6154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 08/57] fix: a null byte inside the source is an unexpected
 token, not the end of the program

---
 ratel/src/lexer/mod.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 85bb744..02556ad 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -7,6 +7,7 @@ pub use lexer::token::*;
 use lexer::labels::*;
 use lexer::token::Token::*;
 
+use std::ffi::CStr;
 use std::str;
 use error::Error;
 use toolshed::Arena;
@@ -86,6 +87,13 @@ const ERR: ByteHandler = Some(|lex| {
 });
 
 const EOF: ByteHandler = Some(|lex| {
+    // Null byte in the middle of the source
+    if lex.index < lex.end {
+        lex.bump();
+
+        return lex.token = UnexpectedToken;
+    }
+
     lex.asi = Asi::ImplicitSemicolon;
 
     lex.token = EndOfProgram;
@@ -579,6 +587,9 @@ pub struct Lexer<'arena> {
     /// Source to parse, must be a C-style buffer ending with 0 byte
     ptr: *const u8,
 
+    /// Index of the 0 byte that ends the source
+    end: usize,
+
     /// Current index
     index: usize,
 
@@ -595,7 +606,7 @@ impl<'arena> Lexer<'arena> {
     /// Create a new `Lexer` from source using an existing arena.
     #[inline]
     pub fn new(arena: &'arena Arena, source: &str) -> Self {
-        unsafe { Lexer::from_ptr(arena.alloc_str_with_nul(source)) }
+        Lexer::with_end(arena.alloc_str_with_nul(source), source.len())
     }
 
     /// Create a new `Lexer` from a raw pointer to byte string.
@@ -608,10 +619,18 @@ impl<'arena> Lexer<'arena> {
     /// to bugs or undefined behavior.
     #[inline]
     pub unsafe fn from_ptr(ptr: *const u8) -> Self {
+        let end = CStr::from_ptr(ptr as *const _).to_bytes().len();
+
+        Lexer::with_end(ptr, end)
+    }
+
+    #[inline]
+    fn with_end(ptr: *const u8, end: usize) -> Self {
         let mut lexer = Lexer {
             token: UnexpectedToken,
             asi: Asi::NoSemicolon,
             ptr,
+            end,
             index: 0,
             token_start: 0,
             accessor_start: 0,
-- 
2.43.0


From 2d6871d30b419d3b91edc6c94eff6b30dfca1b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 09/57] fix: a line terminator in a string literal is an error

---
 ratel/src/lexer/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 02556ad..96ac76d 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -560,12 +560,23 @@ const QOT: ByteHandler = Some(|lex| {
                 return lex.token = LiteralString;
             },
             b'\\' => {
-                lex.bump();
-                expect_byte!(lex);
+                // Line continuation may take two bytes
+                if let b'\r' = lex.next_byte() {
+                    lex.bump();
+
+                    if let b'\n' = lex.read_byte() {
+                        lex.bump();
+                    }
+                } else {
+                    expect_byte!(lex);
+                }
             },
             0 => {
                 return lex.token = UnexpectedEndOfProgram;
             },
+            b'\n' | b'\r' => {
+                return lex.token = UnexpectedToken;
+            },
             _ => lex.bump()
         }
     });
-- 
2.43.0


From 129dc6a9b16ceb09a9ee18356aec097f739978fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 10/57] fix: a radix prefix or an exponent without digits is an
 unexpected token

---
 ratel/src/lexer/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 96ac76d..a7bfcdb 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -909,6 +909,10 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     fn read_binary(&mut self) {
+        if let b'0'..=b'1' = self.read_byte() {} else {
+            return self.token = UnexpectedToken;
+        }
+
         loop {
             match self.read_byte() {
                 b'0' => {
@@ -1017,6 +1021,10 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     fn read_octal(&mut self) {
+        if let b'0'..=b'7' = self.read_byte() {} else {
+            return self.token = UnexpectedToken;
+        }
+
         while match self.read_byte() {
             b'0'..=b'7' => true,
             _ => false,
@@ -1029,6 +1037,10 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     fn read_hexadec(&mut self) {
+        if !self.read_byte().is_ascii_hexdigit() {
+            return self.token = UnexpectedToken;
+        }
+
         while match self.read_byte() {
             b'0'..=b'9' |
             b'a'..=b'f' |
@@ -1064,6 +1076,10 @@ impl<'arena> Lexer<'arena> {
             _           => {}
         }
 
+        if !self.read_byte().is_ascii_digit() {
+            return self.token = UnexpectedToken;
+        }
+
         while match self.read_byte() {
             b'0'..=b'9' => true,
             _ => false,
-- 
2.43.0


From 9507b46a18bbf9762bfca4a8a19723a55b146401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 11/57] fix: a switch case ends at the end of the source

---
 ratel/src/parser/statement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 3e56e67..14988bd 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -139,7 +139,7 @@ impl<'ast> Parse<'ast> for SwitchCase<'ast> {
 
         loop {
             match par.lexer.token {
-                Case | Default | BraceClose => break,
+                Case | Default | BraceClose | EndOfProgram => break,
                 _ => {
                     let statement = par.statement();
                     end = statement.end;
-- 
2.43.0


From d032e6c2e2f266a5c9ac02773c9ec0088fadc6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 12/57] fix: a block that is not closed is an error

---
 ratel/src/parser/mod.rs       | 8 ++++++--
 ratel/src/parser/statement.rs | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ratel/src/parser/mod.rs b/ratel/src/parser/mod.rs
index 9b99d1a..2f76879 100644
--- a/ratel/src/parser/mod.rs
+++ b/ratel/src/parser/mod.rs
@@ -127,7 +127,9 @@ impl<'ast> Parser<'ast> {
         }
 
         let block = self.raw_block();
-        let end   = self.lexer.end_then_consume();
+        let end   = self.lexer.end();
+
+        expect!(self, BraceClose);
 
         self.alloc_at_loc(start, end, block)
     }
@@ -139,7 +141,9 @@ impl<'ast> Parser<'ast> {
     {
         let start = self.lexer.start_then_consume();
         let block = self.raw_block();
-        let end   = self.lexer.end_then_consume();
+        let end   = self.lexer.end();
+
+        expect!(self, BraceClose);
 
         self.alloc_at_loc(start, end, block)
     }
diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 14988bd..64e36a9 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -176,7 +176,9 @@ impl<'ast> Parser<'ast> {
     pub fn block_statement(&mut self) -> StatementNode<'ast> {
         let start = self.lexer.start_then_consume();
         let block = self.raw_block();
-        let end   = self.lexer.end_then_consume();
+        let end   = self.lexer.end();
+
+        expect!(self, BraceClose);
 
         self.alloc_at_loc(start, end, block)
     }
-- 
2.43.0


From 5b3bf3d458527194be68daa4ea6377cda1ffb092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 13/57] fix: the exponent operator is right-associative

---
 ratel/src/parser/nested.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 96b8980..c70940e 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -426,7 +426,8 @@ binary!(SUB  , B13 => Subtraction);
 binary!(MUL  , B14 => Multiplication);
 binary!(DIV  , B14 => Division);
 binary!(REM  , B14 => Remainder);
-binary!(EXPN , B15 => Exponent);
+// Exponent is right-associative
+binary!(EXPN , B14 => Exponent);
 
 
 impl<'ast> Parser<'ast> {
-- 
2.43.0


From 3c480cffed265fe8ee471708b2c1eec3f6bf9b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 14/57] fix: a regular expression may start with an equals sign

---
 ratel/src/lexer/mod.rs         | 2 +-
 ratel/src/parser/expression.rs | 6 +++---
 ratel/src/parser/statement.rs  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index a7bfcdb..4f2e2c1 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -1092,7 +1092,7 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     pub fn read_regular_expression(&mut self) -> &'arena str {
-        let start = self.index - 1;
+        let start = self.token_start;
         let mut in_class = false;
         loop {
             match self.read_byte() {
diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 7b3aebc..531e79b 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -23,7 +23,7 @@ static DEF_CONTEXT: Context = &[
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
 //  ==    !=    &     ^     |     &&    ||    ?     =     +=    -=    **=
 
-    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, REG,  ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
 //  *=    /=    %=    <<=   >>=   >>>=  &=    ^=    |=    ...   VAR   LET
 
     ____, ____, ____, ____, ____, ____, ____, CLAS, ____, ____, ____, ____,
@@ -45,7 +45,7 @@ pub static ARRAY_CONTEXT: Context = &[
     OP,   OP,   OP,   OP,   OP,   OP,   OP,   ____, REG,  ____, ____, OP,
     OP,   ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
-    ____, ____, ____, ____, ____, ____, ____, ____, ____, SPRD, ____, ____,
+    ____, REG,  ____, ____, ____, ____, ____, ____, ____, SPRD, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, CLAS, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, FUNC, THIS, ____, ____, ____,
     ____, ____, ____, TRUE, FALS, NULL, UNDE, STR,  NUM,  BIN,  ____, ____,
@@ -58,7 +58,7 @@ pub static CALL_CONTEXT: Context = &[
     OP,   OP,   OP,   OP,   OP,   OP,   OP,   ____, REG,  ____, ____, OP,
     OP,   ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
-    ____, ____, ____, ____, ____, ____, ____, ____, ____, SPRD, ____, ____,
+    ____, REG,  ____, ____, ____, ____, ____, ____, ____, SPRD, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, CLAS, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, FUNC, THIS, ____, ____, ____,
     ____, ____, ____, TRUE, FALS, NULL, UNDE, STR,  NUM,  BIN,  ____, ____,
diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 64e36a9..0094a5e 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -28,7 +28,7 @@ static STMT_HANDLERS: [StatementHandler; 108] = [
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
 //  ==    !=    &     ^     |     &&    ||    ?     =     +=    -=    **=
 
-    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, VAR,  LET,
+    ____, REG,  ____, ____, ____, ____, ____, ____, ____, ____, VAR,  LET,
 //  *=    /=    %=    <<=   >>=   >>>=  &=    ^=    |=    ...   VAR   LET
 
     CONS, BRK,  DO,   ____, ____, ____, ____, CLAS, ____, RET,  WHL,  ____,
-- 
2.43.0


From fdfc663826c614485a2e8dd3f9641697690414b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 15/57] fix: the arguments of a new expression end it, member
 access and calls that follow apply to the result

---
 ratel/src/parser/expression.rs | 40 ++++++++++++++++++++++++++++++++--
 ratel/src/parser/nested.rs     | 13 +++++++++++
 2 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 531e79b..634e8a0 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -1,5 +1,5 @@
 use toolshed::list::ListBuilder;
-use parser::{Parser, Parse, BindingPower, ANY, B0, B15};
+use parser::{Parser, Parse, BindingPower, ANY, B0, B15, MEMBER};
 use lexer::Token::*;
 use ast::{Node, NodeList, Expression, ExpressionNode, IdentifierNode, ExpressionList};
 use ast::{Property, PropertyKey, OperatorKind, Literal, Function, Class, StatementNode};
@@ -153,7 +153,7 @@ create_handlers! {
             par.lexer.consume();
             par.alloc_at_loc(start, end, expression)
         } else {
-            let expression = par.prefix_expression(OperatorKind::New);
+            let expression = par.new_expression();
             let end = par.lexer.end();
             par.alloc_at_loc(start, end, expression)
         }
@@ -344,6 +344,42 @@ impl<'ast> Parser<'ast> {
         }
     }
 
+    /// Callee of the `new` operator is a member expression, that is an expression that
+    /// doesn't reach past the first unparenthesised call, which are the arguments.
+    #[inline]
+    pub fn new_expression(&mut self) -> PrefixExpression<'ast> {
+        let callee = self.bound_expression();
+        let callee = self.nested_expression::<MEMBER>(callee);
+
+        let operand = match (self.lexer.token, callee.item) {
+            (ParenOpen, _) => {
+                let start = self.lexer.start_then_consume();
+                let arguments = self.call_arguments();
+                let end = self.lexer.end_then_consume();
+
+                self.alloc_at_loc(start, end, CallExpression {
+                    callee,
+                    arguments,
+                })
+            },
+
+            // Parenthesised call, its arguments aren't the ones of the `new` operator
+            (_, Expression::Call(_)) => {
+                self.alloc_at_loc(callee.start, callee.end, CallExpression {
+                    callee,
+                    arguments: NodeList::empty(),
+                })
+            },
+
+            _ => callee
+        };
+
+        PrefixExpression {
+            operator: OperatorKind::New,
+            operand,
+        }
+    }
+
     #[inline]
     pub fn object_expression(&mut self) -> ExpressionNode<'ast> {
         let start = self.lexer.start_then_consume();
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index c70940e..0fabd65 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -224,6 +224,19 @@ bp!(B15, [
     ____, ____, ____, ____, ____, ____, ____, ACCS, TPLE, TPLS, ____, ____,
 ]);
 
+// Only member access and tagged templates, no calls
+bp!(MEMBER, [
+    ____, ____, ____, ____, ____, ____, CMEM, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ACCS, TPLE, TPLS, ____, ____,
+]);
+
 const ____: NestedHandler = None;
 
 const SEQ: NestedHandler = Some(|par, left| {
-- 
2.43.0


From c61e0e059a67d4b2fbd7ee4ddb3c0dc06241e4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 16/57] fix: the semicolon after a do-while statement is a part
 of it

---
 ratel/src/parser/statement.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 0094a5e..412347e 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -474,6 +474,11 @@ impl<'ast> Parser<'ast> {
         let end = self.lexer.end();
         expect!(self, ParenClose);
 
+        // Semicolon is always optional here
+        if self.lexer.token == Semicolon {
+            self.lexer.consume();
+        }
+
         self.alloc_at_loc(start, end, DoStatement {
             body,
             test,
-- 
2.43.0


From c93687e7dbecf505f62b2af44b40ed5e08b92108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 17/57] fix: the semicolon after a debugger statement is a part
 of it

---
 ratel/src/parser/statement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 412347e..81fb052 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -76,6 +76,7 @@ create_handlers! {
     const DBGGR = |par| {
         let stmt = par.alloc_in_loc(Statement::Debugger);
         par.lexer.consume();
+        par.expect_semicolon();
 
         stmt
     };
-- 
2.43.0


From c242dc1a77a6657aca513a2d606ca73d961c4633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 18/57] fix: the left side of a for-in statement ends at the in
 keyword, and a parenthesised in expression is not one

---
 ratel/src/parser/statement.rs | 35 ++++++++---------------------------
 1 file changed, 8 insertions(+), 27 deletions(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 81fb052..b3ace47 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -1,16 +1,14 @@
 use toolshed::list::{ListBuilder, GrowableList};
-use parser::{Parser, Parse, ANY, B0};
+use parser::{Parser, Parse, ANY, B0, B15};
 use lexer::Token::*;
 use lexer::Asi;
 use ast::{Node, NodeList, Declarator, DeclarationKind};
-use ast::{Statement, StatementNode, Expression, ExpressionNode, Class, Function, Pattern};
-use ast::expression::BinaryExpression;
+use ast::{Statement, StatementNode, ExpressionNode, Class, Function, Pattern};
 use ast::statement::{ThrowStatement, ContinueStatement, BreakStatement, ReturnStatement};
 use ast::statement::{TryStatement, CatchClause, IfStatement, WhileStatement, DoStatement};
 use ast::statement::{DeclarationStatement, ForStatement, ForInStatement, ForOfStatement};
 use ast::statement::{SwitchStatement, SwitchCase, LabeledStatement, ForInit};
 use ast::statement::{ImportDeclaration, ImportDefaultSpecifier, ImportNamespaceSpecifier, ImportSpecifier, ForImportSpecifier};
-use ast::OperatorKind::*;
 
 
 type StatementHandler = for<'ast> fn(&mut Parser<'ast>) -> StatementNode<'ast>;
@@ -512,18 +510,13 @@ impl<'ast> Parser<'ast> {
             DeclarationLet   => Some(self.for_init(DeclarationKind::Let)),
             DeclarationConst => Some(self.for_init(DeclarationKind::Const)),
             _ => {
-                let init = self.expression::<ANY>();
+                let init = self.expression::<B15>();
 
-                if let Expression::Binary(BinaryExpression {
-                    operator: In,
-                    left,
-                    right,
-                    ..
-                }) = init.item {
-                    let left = self.alloc_at_loc(left.start, left.end, left);
-
-                    return self.for_in_statement_from_parts(start, left, right);
-                }
+                let init = match self.lexer.token {
+                    OperatorIn => init,
+                    Identifier if self.lexer.token_as_str() == "of" => init,
+                    _ => self.nested_expression::<ANY>(init),
+                };
 
                 Some(self.alloc_at_loc(init.start, init.end, init))
             },
@@ -579,18 +572,6 @@ impl<'ast> Parser<'ast> {
         })
     }
 
-    fn for_in_statement_from_parts(&mut self, start: u32, left: Node<'ast, ForInit<'ast>>, right: ExpressionNode<'ast>) -> StatementNode<'ast> {
-        expect!(self, ParenClose);
-
-        let body = self.statement();
-
-        self.alloc_at_loc(start, body.end, ForInStatement {
-            left,
-            right,
-            body,
-        })
-    }
-
     fn for_in_statement(&mut self, start: u32, left: Node<'ast, ForInit<'ast>>) -> StatementNode<'ast> {
         let right = self.expression::<ANY>();
 
-- 
2.43.0


From f60270d798fca93d53f835bcd2d3c2c6e546dc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 19/57] fix: the semicolon after an import declaration is a
 part of it

---
 ratel/src/parser/statement.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index b3ace47..0f29b10 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -654,6 +654,8 @@ impl<'ast> Parser<'ast> {
                 let source = &str_ltr[1..str_ltr.len() - 1];
                 let end = self.lexer.end_then_consume();
 
+                self.expect_semicolon();
+
                 return self.alloc_at_loc(start, end, ImportDeclaration {
                     specifiers: NodeList::empty(),
                     source,
@@ -739,6 +741,9 @@ impl<'ast> Parser<'ast> {
             }
         };
         let end = self.lexer.end_then_consume();
+
+        self.expect_semicolon();
+
         self.alloc_at_loc(start, end, ImportDeclaration {
             specifiers: builder.as_list(),
             source,
-- 
2.43.0


From 08649cd40a52a1e74b97700c093135ac1c723b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 20/57] fix: import followed by a comma is an error, import
 followed by a property is an expression

---
 ratel/src/parser/statement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 0f29b10..058cc20 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -622,7 +622,7 @@ impl<'ast> Parser<'ast> {
 
         let builder: GrowableList<Node<'ast, ForImportSpecifier>> = GrowableList::new();
         self.lexer.consume();
-        if self.lexer.token == Comma || self.lexer.token == ParenOpen {
+        if self.lexer.token == Accessor || self.lexer.token == ParenOpen {
             // call or access. example: `import()` `import.filed`
             let expression = self.alloc_at_loc(start, end, import);
             let expression = self.nested_expression::<ANY>(expression);
-- 
2.43.0


From fede352584b40955649997b470e3897fc5ef9cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 21/57] fix: the list of import specifiers may be empty or end
 with a comma, and ends at the first error

---
 ratel/src/parser/statement.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 058cc20..6011ed0 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -694,9 +694,14 @@ impl<'ast> Parser<'ast> {
                                     },
                                     _ => {
                                         self.error::<()>();
+                                        break;
                                     }
                                 }
                             },
+                            BraceClose => {
+                                self.lexer.consume();
+                                break;
+                            },
                             _ => {
                                 self.error::<()>();
                                 break;
-- 
2.43.0


From 37adec11e575e8d5b3cec2aa4e628546984c7c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 22/57] fix: codegen writes empty statements

---
 ratel-codegen/src/statement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 134d26a..d94647c 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -11,7 +11,7 @@ impl<'ast, G: Generator> ToCode<G> for Statement<'ast> {
         use ratel::ast::Statement::*;
 
         match *self {
-            Empty => {},
+            Empty => gen.write_byte(b';'),
             Debugger => {
                 gen.write_bytes(b"debugger");
             },
-- 
2.43.0


From 6e09790942ec7d96794d8eb73249b7ebeacde674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 23/57] fix: codegen keeps the star of generator functions

---
 ratel-codegen/src/function.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ratel-codegen/src/function.rs b/ratel-codegen/src/function.rs
index c9e23f8..e47477b 100644
--- a/ratel-codegen/src/function.rs
+++ b/ratel-codegen/src/function.rs
@@ -59,6 +59,9 @@ impl<'ast, G, N> ToCode<G> for Function<'ast, N> where
     #[inline]
     fn to_code(&self, gen: &mut G) {
         N::write_function(gen);
+        if self.generator {
+            gen.write_byte(b'*');
+        }
         gen.write(&self.name);
         gen.write_byte(b'(');
         gen.write_list(&self.params);
-- 
2.43.0


From bc587d8fb75ea733698b9cd1553d63f0839de12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 24/57] fix: codegen writes the finally keyword

---
 ratel-codegen/src/statement.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index d94647c..28e71eb 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -257,6 +257,8 @@ impl<'ast, G: Generator> ToCode<G> for TryStatement<'ast> {
             gen.write(&handler.body);
         }
         if let Some(ref finalizer) = self.finalizer {
+            gen.write_pretty(b' ');
+            gen.write_bytes(b"finally");
             gen.write_pretty(b' ');
             gen.write(finalizer);
         }
-- 
2.43.0


From 3cf8430fb78eadf11d11cbdf8ed643cd62d34cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 25/57] fix: codegen picks quotes for the source of an import
 that its contents allow

---
 ratel-codegen/src/statement.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 28e71eb..8cae3e8 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -319,11 +319,29 @@ impl<'ast, G: Generator> ToCode<G> for SwitchCase<'ast> {
 impl<'ast, G: Generator> ToCode<G> for ImportDeclaration<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
+        // Source is a raw slice of a string literal, a single quote that isn't escaped
+        // can only be there if the literal was a double quoted one.
+        fn quote(source: &str) -> u8 {
+            let mut bytes = source.bytes();
+
+            while let Some(byte) = bytes.next() {
+                match byte {
+                    b'\\' => { bytes.next(); },
+                    b'\'' => return b'"',
+                    _     => {}
+                }
+            }
+
+            b'\''
+        }
+
+        let quote = quote(self.source);
+
         gen.write_bytes(b"import ");
         if self.specifiers.is_empty() {
-            gen.write_byte(b'\'');
+            gen.write_byte(quote);
             gen.write(&self.source);
-            gen.write_byte(b'\'');
+            gen.write_byte(quote);
             return
         }
 
@@ -350,9 +368,10 @@ impl<'ast, G: Generator> ToCode<G> for ImportDeclaration<'ast> {
             gen.write_byte(b'}');
         }
 
-        gen.write_bytes(b" from '");
+        gen.write_bytes(b" from ");
+        gen.write_byte(quote);
         gen.write_bytes(self.source.as_bytes());
-        gen.write_byte(b'\'');
+        gen.write_byte(quote);
     }
 }
 impl<'ast, G: Generator> ToCode<G> for ForImportSpecifier<'ast> {
-- 
2.43.0


From 60fa6fc6d89fc4b65d0b2a8ad90c1b9ccbfe052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 26/57] fix: codegen adds parenthesis around every operand that
 binds weaker than its position requires

---
 ratel-codegen/src/expression.rs | 58 +++++++++++++++++++++------------
 ratel-codegen/src/function.rs   |  4 +--
 ratel-codegen/src/lib.rs        | 20 +++++++++++-
 ratel-codegen/src/statement.rs  |  4 +--
 ratel/src/ast/expression.rs     |  3 +-
 5 files changed, 63 insertions(+), 26 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 4796e5e..0e0f138 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -68,7 +68,7 @@ impl<'ast, G: Generator> ToCode<G> for PropertyKey<'ast> {
         match *self {
             Computed(ref val) => {
                 gen.write_byte(b'[');
-                gen.write(val);
+                gen.write_expression(val, 1);
                 gen.write_byte(b']');
             },
             Literal(ref val) => gen.write(val),
@@ -91,7 +91,7 @@ impl<'ast, G: Generator> ToCode<G> for Property<'ast> {
                 gen.write(key);
                 gen.write_byte(b':');
                 gen.write_pretty(b' ');
-                gen.write(value);
+                gen.write_expression(value, 1);
             },
             Method {
                 ref key,
@@ -104,7 +104,7 @@ impl<'ast, G: Generator> ToCode<G> for Property<'ast> {
                 ref argument
             } => {
                 gen.write_bytes(b"...");
-                gen.write(argument);
+                gen.write_expression(argument, 1);
             }
         }
     }
@@ -113,7 +113,7 @@ impl<'ast, G: Generator> ToCode<G> for Property<'ast> {
 impl<'ast, G: Generator> ToCode<G> for SequenceExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write_list(&self.body);
+        gen.write_expression_list(&self.body);
     }
 }
 
@@ -121,7 +121,7 @@ impl<'ast, G: Generator> ToCode<G> for ArrayExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_byte(b'[');
-        gen.write_list(&self.body);
+        gen.write_expression_list(&self.body);
         gen.write_byte(b']');
     }
 }
@@ -157,9 +157,9 @@ impl<'ast, G: Generator> ToCode<G> for MetaPropertyExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for CallExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.callee);
+        gen.write_expression(&self.callee, 17);
         gen.write_byte(b'(');
-        gen.write_list(&self.arguments);
+        gen.write_expression_list(&self.arguments);
         gen.write_byte(b')');
     }
 }
@@ -192,7 +192,18 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
             }
         };
 
-        gen.write_expression(&self.left, bp);
+        // `2 / 2 * 2` and `2 / (2 * 2)` are different expressions,
+        // hence the need for parenthesis in a right-balanced tree
+        // even if binding power of operators is exactly the same.
+        // Exponent can't have an unary operator on its left, and
+        // assignment is right-associative.
+        let (bp_left, bp_right) = match self.operator {
+            OperatorKind::Exponent                => (16, 15),
+            operator if operator.assignment()     => (17, bp),
+            _                                     => (bp, bp + 1),
+        };
+
+        gen.write_expression(&self.left, bp_left);
 
         if spacing_left {
             gen.write_byte(b' ');
@@ -208,10 +219,7 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
             gen.write_pretty(b' ');
         }
 
-        // `2 / 2 * 2` and `2 / (2 * 2)` are different expressions,
-        // hence the need for parenthesis in a right-balanced tree
-        // even if binding power of operators is exactly the same.
-        gen.write_expression(&self.right, bp + 1);
+        gen.write_expression(&self.right, bp_right);
     }
 }
 
@@ -222,14 +230,24 @@ impl<'ast, G: Generator> ToCode<G> for PrefixExpression<'ast> {
         if self.operator.category() == OperatorCategory::Word {
             gen.write_byte(b' ');
         }
-        gen.write(&self.operand);
+        match (self.operator, self.operand.item) {
+            // Arguments of the `new` operator
+            (OperatorKind::New, Expression::Call(CallExpression { callee, arguments })) => {
+                gen.write_expression(&callee, 18);
+                gen.write_byte(b'(');
+                gen.write_expression_list(&arguments);
+                gen.write_byte(b')');
+            },
+            (OperatorKind::New, _) => gen.write_expression(&self.operand, 18),
+            _ => gen.write_expression(&self.operand, 15),
+        }
     }
 }
 
 impl<'ast, G: Generator> ToCode<G> for PostfixExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.operand);
+        gen.write_expression(&self.operand, 17);
         gen.write(&self.operator);
     }
 }
@@ -237,15 +255,15 @@ impl<'ast, G: Generator> ToCode<G> for PostfixExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for ConditionalExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.test);
+        gen.write_expression(&self.test, 5);
         gen.write_pretty(b' ');
         gen.write_byte(b'?');
         gen.write_pretty(b' ');
-        gen.write(&self.consequent);
+        gen.write_expression(&self.consequent, 1);
         gen.write_pretty(b' ');
         gen.write_byte(b':');
         gen.write_pretty(b' ');
-        gen.write(&self.alternate);
+        gen.write_expression(&self.alternate, 1);
     }
 }
 
@@ -281,7 +299,7 @@ impl<'ast, G: Generator> ToCode<G> for TemplateLiteral<'ast> {
 impl<'ast, G: Generator> ToCode<G> for TaggedTemplateExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.tag);
+        gen.write_expression(&self.tag, 19);
         gen.write(&self.quasi);
     }
 }
@@ -290,7 +308,7 @@ impl<'ast, G: Generator> ToCode<G> for SpreadExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_bytes(b"...");
-        gen.write(&self.argument);
+        gen.write_expression(&self.argument, 1);
     }
 }
 
@@ -298,7 +316,7 @@ impl<'ast, G: Generator> ToCode<G> for ArrowBody<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         match *self {
-            ArrowBody::Expression(ref expression) => gen.write(expression),
+            ArrowBody::Expression(ref expression) => gen.write_expression(expression, 1),
             ArrowBody::Block(ref block)           => gen.write(block),
         }
     }
diff --git a/ratel-codegen/src/function.rs b/ratel-codegen/src/function.rs
index e47477b..51a19b2 100644
--- a/ratel-codegen/src/function.rs
+++ b/ratel-codegen/src/function.rs
@@ -107,7 +107,7 @@ impl<'ast, G: Generator> ToCode<G> for ClassMember<'ast> {
                 gen.write_pretty(b' ');
                 gen.write_byte(b'=');
                 gen.write_pretty(b' ');
-                gen.write(value);
+                gen.write_expression(value, 1);
                 gen.write_byte(b';');
             }
         }
@@ -124,7 +124,7 @@ impl<'ast, G, N> ToCode<G> for Class<'ast, N> where
         gen.write(&self.name);
         if let Some(ref super_class) = self.extends {
             gen.write_bytes(b" extends ");
-            gen.write(super_class);
+            gen.write_expression(super_class, 17);
         }
         gen.write_pretty(b' ');
         gen.write(&self.body);
diff --git a/ratel-codegen/src/lib.rs b/ratel-codegen/src/lib.rs
index 7481831..6b8c880 100644
--- a/ratel-codegen/src/lib.rs
+++ b/ratel-codegen/src/lib.rs
@@ -37,6 +37,24 @@ pub trait Generator: Sized {
         }
     }
 
+    /// Same as `write_list`, but adds parenthesis to sequence expressions
+    #[inline]
+    fn write_expression_list<'a, 'ast: 'a, I>(&mut self, items: I) where
+        I: IntoIterator<Item = &'a ExpressionNode<'ast>>,
+    {
+        let mut items = items.into_iter();
+
+        if let Some(item) = items.next() {
+            self.write_expression(item, 1);
+        }
+
+        for item in items {
+            self.write_byte(b',');
+            self.write_pretty(b' ');
+            self.write_expression(item, 1);
+        }
+    }
+
     #[inline]
     fn write_list<'a, T, I>(&mut self, items: I) where
         T: ToCode<Self> + 'a,
@@ -314,7 +332,7 @@ impl<'ast, G: Generator> ToCode<G> for Pattern<'ast> {
                 gen.write_pretty(b' ');
                 gen.write_byte(b'=');
                 gen.write_pretty(b' ');
-                gen.write(right);
+                gen.write_expression(right, 1);
             }
         }
     }
diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 8cae3e8..8e9eb47 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -72,7 +72,7 @@ impl<'ast, G: Generator> ToCode<G> for Declarator<'ast> {
             gen.write_pretty(b' ');
             gen.write_byte(b'=');
             gen.write_pretty(b' ');
-            gen.write(init);
+            gen.write_expression(init, 1);
         }
     }
 }
@@ -233,7 +233,7 @@ impl<'ast, G: Generator> ToCode<G> for ForOfStatement<'ast> {
         gen.write_byte(b'(');
         gen.write(&self.left);
         gen.write_bytes(b" of ");
-        gen.write(&self.right);
+        gen.write_expression(&self.right, 1);
         gen.write_byte(b')');
         gen.write_pretty(b' ');
         gen.write(&self.body);
diff --git a/ratel/src/ast/expression.rs b/ratel/src/ast/expression.rs
index b25d1db..960cb90 100644
--- a/ratel/src/ast/expression.rs
+++ b/ratel/src/ast/expression.rs
@@ -191,7 +191,7 @@ impl<'ast> Expression<'ast> {
         use self::Expression::*;
 
         match *self {
-            Member(_) | MetaProperty(_) | Arrow(_) => 18,
+            Member(_) | MetaProperty(_) => 18,
 
             Call(_) => 17,
 
@@ -201,6 +201,7 @@ impl<'ast> Expression<'ast> {
             Postfix(PostfixExpression { ref operator, .. }) => operator.binding_power(),
 
             Conditional(_) => 4,
+            Arrow(_) => 3,
 
             Sequence(_) => 0,
 
-- 
2.43.0


From 3a174885c90a890b779e594efd1041990ce5ed6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 27/57] fix: codegen adds parenthesis around an integer the
 property of which is accessed

---
 ratel-codegen/src/expression.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 0e0f138..1056fb0 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -129,7 +129,15 @@ impl<'ast, G: Generator> ToCode<G> for ArrayExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for MemberExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write_expression(&self.object, 19);
+        match self.object.item {
+            // Dot would become a part of the number
+            Expression::Literal(Literal::Number(number)) if number.bytes().all(|byte| byte.is_ascii_digit()) => {
+                gen.write_byte(b'(');
+                gen.write(&number);
+                gen.write_byte(b')');
+            },
+            _ => gen.write_expression(&self.object, 19),
+        }
         gen.write_byte(b'.');
         gen.write(&self.property);
     }
-- 
2.43.0


From c24fd239cc64271093da6ae620de9b0ff8fda151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 28/57] fix: codegen adds parenthesis around expressions that
 would start a block, function or class

---
 ratel-codegen/src/expression.rs | 38 +++++++++++++++++++++++++++++++--
 ratel-codegen/src/statement.rs  |  3 ++-
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 1056fb0..229e78f 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -1,9 +1,33 @@
-use ratel::ast::{Expression, Literal, OperatorKind, OperatorCategory, Property, PropertyKey, Pattern};
+use ratel::ast::{Expression, ExpressionNode, Literal, OperatorKind, OperatorCategory, Property, PropertyKey, Pattern};
 use ratel::ast::expression::*;
 
 use {ToCode, Generator};
 
 
+/// Get the expression that the code of given expression starts with, unless
+/// it starts with a parenthesis.
+#[inline]
+pub fn leftmost<'ast>(mut expression: ExpressionNode<'ast>) -> ExpressionNode<'ast> {
+    use ratel::ast::Expression::*;
+
+    loop {
+        expression = match expression.item {
+            Sequence(SequenceExpression { body }) => match body.iter().next() {
+                Some(first) => *first,
+                None        => return expression,
+            },
+            Member(MemberExpression { object, .. })                 => object,
+            ComputedMember(ComputedMemberExpression { object, .. }) => object,
+            Call(CallExpression { callee, .. })                     => callee,
+            Binary(BinaryExpression { left, .. })                   => left,
+            Postfix(PostfixExpression { operand, .. })              => operand,
+            Conditional(ConditionalExpression { test, .. })         => test,
+            TaggedTemplate(TaggedTemplateExpression { tag, .. })    => tag,
+            _                                                       => return expression,
+        };
+    }
+}
+
 impl<'ast, G: Generator> ToCode<G> for Expression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
@@ -324,7 +348,17 @@ impl<'ast, G: Generator> ToCode<G> for ArrowBody<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         match *self {
-            ArrowBody::Expression(ref expression) => gen.write_expression(expression, 1),
+            ArrowBody::Expression(ref expression) => {
+                match leftmost(*expression).item {
+                    // Curly brace would open a block
+                    Expression::Object(_) => {
+                        gen.write_byte(b'(');
+                        gen.write(expression);
+                        gen.write_byte(b')');
+                    },
+                    _ => gen.write_expression(expression, 1),
+                }
+            },
             ArrowBody::Block(ref block)           => gen.write(block),
         }
     }
diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 8e9eb47..b1d05b7 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -2,6 +2,7 @@ use ratel::ast::{Statement, Declarator, DeclarationKind};
 use ratel::ast::statement::*;
 
 use {ToCode, Generator};
+use expression::leftmost;
 use ratel::ast::Node;
 
 
@@ -16,7 +17,7 @@ impl<'ast, G: Generator> ToCode<G> for Statement<'ast> {
                 gen.write_bytes(b"debugger");
             },
             Expression(ref expression) => {
-                if expression.is_allowed_as_bare_statement() {
+                if leftmost(*expression).is_allowed_as_bare_statement() {
                     gen.write(expression);
                 } else {
                     gen.write_byte(b'(');
-- 
2.43.0


From 07bccfb75f87c5cb93b4616f24ad5d57aeacc4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 29/57] fix: codegen separates operators that would merge with
 the token that follows

---
 ratel-codegen/src/expression.rs | 64 +++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 15 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 229e78f..3f61e77 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -202,9 +202,43 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
         let bp = self.operator.binding_power();
         let category = self.operator.category();
 
+        // `2 / 2 * 2` and `2 / (2 * 2)` are different expressions,
+        // hence the need for parenthesis in a right-balanced tree
+        // even if binding power of operators is exactly the same.
+        // Exponent can't have an unary operator on its left, and
+        // assignment is right-associative.
+        let (bp_left, bp_right) = match self.operator {
+            OperatorKind::Exponent                => (16, 15),
+            operator if operator.assignment()     => (17, bp),
+            _                                     => (bp, bp + 1),
+        };
+
+        // Expression that directly follows the operator
+        let next = if self.right.binding_power() < bp_right {
+            None
+        } else {
+            Some(leftmost(self.right).item)
+        };
+
         let (spacing_left, spacing_right) = match category {
             OperatorCategory::Word => (true, true),
-            OperatorCategory::Safe => (false, false),
+            OperatorCategory::Safe => (false, match (self.operator, next) {
+                // Two slashes would start a comment
+                (OperatorKind::Division, Some(Expression::Literal(Literal::RegEx(_)))) => true,
+
+                // So would `<!--` in a script
+                (OperatorKind::Lesser, Some(Expression::Prefix(prefix))) |
+                (OperatorKind::BitShiftLeft, Some(Expression::Prefix(prefix))) => {
+                    match (prefix.operator, prefix.operand.item) {
+                        (OperatorKind::LogicalNot, Expression::Prefix(operand)) => {
+                            operand.operator == OperatorKind::Decrement
+                        },
+                        _ => false
+                    }
+                },
+
+                _ => false
+            }),
             category => {
                 let spacing_left = match self.left.item {
                     Expression::Postfix(PostfixExpression { operator, .. }) => {
@@ -213,8 +247,8 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
                     _ => false
                 };
 
-                let spacing_right = match self.right.item {
-                    Expression::Prefix(PrefixExpression { operator, .. }) => {
+                let spacing_right = match next {
+                    Some(Expression::Prefix(PrefixExpression { operator, .. })) => {
                         category == operator.category()
                     },
                     _ => false
@@ -224,17 +258,6 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
             }
         };
 
-        // `2 / 2 * 2` and `2 / (2 * 2)` are different expressions,
-        // hence the need for parenthesis in a right-balanced tree
-        // even if binding power of operators is exactly the same.
-        // Exponent can't have an unary operator on its left, and
-        // assignment is right-associative.
-        let (bp_left, bp_right) = match self.operator {
-            OperatorKind::Exponent                => (16, 15),
-            operator if operator.assignment()     => (17, bp),
-            _                                     => (bp, bp + 1),
-        };
-
         gen.write_expression(&self.left, bp_left);
 
         if spacing_left {
@@ -259,9 +282,20 @@ impl<'ast, G: Generator> ToCode<G> for PrefixExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write(&self.operator);
-        if self.operator.category() == OperatorCategory::Word {
+
+        let spacing = match (self.operator.category(), self.operand.item) {
+            (OperatorCategory::Word, _) => true,
+            (OperatorCategory::Safe, _) => false,
+
+            // `- -foo` and `--foo` are different expressions
+            (category, Expression::Prefix(PrefixExpression { operator, .. })) => category == operator.category(),
+            _ => false
+        };
+
+        if spacing {
             gen.write_byte(b' ');
         }
+
         match (self.operator, self.operand.item) {
             // Arguments of the `new` operator
             (OperatorKind::New, Expression::Call(CallExpression { callee, arguments })) => {
-- 
2.43.0


From 7dae5d22a8ffed6633afaec8ded3082bf431959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 30/57] fix: codegen separates statements that are written
 without a semicolon from the ones that follow

---
 ratel-codegen/src/lib.rs       | 42 +++++++++++++++++++++++++++++++---
 ratel-codegen/src/statement.rs | 36 +++++++++++++++++++++++++++++
 2 files changed, 75 insertions(+), 3 deletions(-)

diff --git a/ratel-codegen/src/lib.rs b/ratel-codegen/src/lib.rs
index 6b8c880..480f5f4 100644
--- a/ratel-codegen/src/lib.rs
+++ b/ratel-codegen/src/lib.rs
@@ -5,6 +5,7 @@ extern crate ratel;
 
 use ratel::ast::{Node, ExpressionNode, Loc, Block, Pattern};
 use ratel::Module;
+use statement::needs_semicolon;
 
 mod expression;
 mod statement;
@@ -80,18 +81,25 @@ pub trait Generator: Sized {
     {
         let mut items = items.into_iter();
 
-        match items.next() {
+        let first = match items.next() {
             Some(item) => {
                 self.indent();
                 self.new_line();
                 self.write(item);
+                item
             },
             None => return,
-        }
+        };
+
+        let mut semicolon = ToCode::<Self>::needs_semicolon(first);
 
         for item in items {
+            if semicolon {
+                self.write_byte(b';');
+            }
             self.new_line();
             self.write(item);
+            semicolon = ToCode::<Self>::needs_semicolon(item);
         }
         self.dedent();
         self.new_line();
@@ -199,9 +207,14 @@ impl Generator for PrettyGenerator {
 pub fn codegen(module: &Module, minify: bool) -> String {
     if minify {
         let mut gen = MinifyingGenerator::default();
+        let mut semicolon = false;
 
         for statement in module.body() {
+            if semicolon {
+                gen.write_byte(b';');
+            }
             gen.write(statement);
+            semicolon = needs_semicolon(statement);
         }
 
         gen.consume()
@@ -209,11 +222,18 @@ pub fn codegen(module: &Module, minify: bool) -> String {
         let mut gen = PrettyGenerator::default();
         let mut body = module.body().iter();
 
-        gen.write(&body.next().cloned());
+        let first = body.next();
+        let mut semicolon = first.map_or(false, |statement| needs_semicolon(statement));
+
+        gen.write(&first.cloned());
 
         for statement in body {
+            if semicolon {
+                gen.write_byte(b';');
+            }
             gen.new_line();
             gen.write(statement);
+            semicolon = needs_semicolon(statement);
         }
 
         gen.consume()
@@ -224,6 +244,12 @@ pub fn codegen(module: &Module, minify: bool) -> String {
 /// to efficiently write characters and string slices to the code `Generator`.
 pub trait ToCode<G: Generator> {
     fn to_code(&self, gen: &mut G);
+
+    /// Whether the code has to be followed by a semicolon, unless it's the last in a list.
+    #[inline]
+    fn needs_semicolon(&self) -> bool {
+        false
+    }
 }
 
 impl<'ast, G, T> ToCode<G> for Node<'ast, T> where
@@ -234,6 +260,11 @@ impl<'ast, G, T> ToCode<G> for Node<'ast, T> where
     fn to_code(&self, gen: &mut G) {
         (**self).to_code(gen)
     }
+
+    #[inline]
+    fn needs_semicolon(&self) -> bool {
+        ToCode::<G>::needs_semicolon(&**self)
+    }
 }
 
 impl<G, T> ToCode<G> for Loc<T> where
@@ -244,6 +275,11 @@ impl<G, T> ToCode<G> for Loc<T> where
     fn to_code(&self, gen: &mut G) {
         self.item.to_code(gen)
     }
+
+    #[inline]
+    fn needs_semicolon(&self) -> bool {
+        self.item.needs_semicolon()
+    }
 }
 
 impl<'a, G, T> ToCode<G> for &'a Loc<T> where
diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index b1d05b7..a92cc9d 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -49,6 +49,31 @@ impl<'ast, G: Generator> ToCode<G> for Statement<'ast> {
             Import(ref import)           => gen.write(import)
         }
     }
+
+    #[inline]
+    fn needs_semicolon(&self) -> bool {
+        needs_semicolon(self)
+    }
+}
+
+/// Some of the statements are written without the semicolon that ends them.
+pub fn needs_semicolon<'ast>(mut statement: &Statement<'ast>) -> bool {
+    use ratel::ast::Statement::*;
+
+    loop {
+        statement = match *statement {
+            Debugger | Do(_) | Import(_) => return true,
+
+            If(IfStatement { ref alternate, ref consequent, .. }) => alternate.as_ref().unwrap_or(consequent),
+            While(WhileStatement { ref body, .. })     |
+            For(ForStatement { ref body, .. })         |
+            ForIn(ForInStatement { ref body, .. })     |
+            ForOf(ForOfStatement { ref body, .. })     |
+            Labeled(LabeledStatement { ref body, .. }) => body,
+
+            _ => return false,
+        };
+    }
 }
 
 impl<G: Generator> ToCode<G> for DeclarationKind {
@@ -135,6 +160,9 @@ impl<'ast, G: Generator> ToCode<G> for IfStatement<'ast> {
         gen.write(&self.consequent);
 
         if let Some(ref alternate) = self.alternate {
+            if needs_semicolon(&self.consequent) {
+                gen.write_byte(b';');
+            }
             if self.consequent.is_block() {
                 gen.write_pretty(b' ');
             } else {
@@ -174,6 +202,9 @@ impl<'ast, G: Generator> ToCode<G> for DoStatement<'ast> {
             gen.write_byte(b' ');
         }
         gen.write(&self.body);
+        if needs_semicolon(&self.body) {
+            gen.write_byte(b';');
+        }
         gen.write_bytes(b"while");
         gen.write_pretty(b' ');
         gen.write_byte(b'(');
@@ -315,6 +346,11 @@ impl<'ast, G: Generator> ToCode<G> for SwitchCase<'ast> {
         }
         gen.write_block(&self.consequent);
     }
+
+    #[inline]
+    fn needs_semicolon(&self) -> bool {
+        self.consequent.iter().last().map_or(false, |statement| needs_semicolon(statement))
+    }
 }
 
 impl<'ast, G: Generator> ToCode<G> for ImportDeclaration<'ast> {
-- 
2.43.0


From aaecb8b1db4243f2fc937109fa7256226107a6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 31/57] fix: codegen adds parenthesis around the in operator in
 the first part of a for statement

---
 ratel-codegen/src/statement.rs | 62 ++++++++++++++++++++++++++++++++--
 1 file changed, 60 insertions(+), 2 deletions(-)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index a92cc9d..b1cf1ad 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -1,4 +1,5 @@
-use ratel::ast::{Statement, Declarator, DeclarationKind};
+use ratel::ast::{Statement, Declarator, DeclarationKind, ExpressionNode, OperatorKind};
+use ratel::ast::expression::*;
 use ratel::ast::statement::*;
 
 use {ToCode, Generator};
@@ -223,13 +224,70 @@ impl<'ast, G: Generator> ToCode<G> for ForInit<'ast> {
     }
 }
 
+/// Check for the `in` operator that isn't inside of any brackets.
+fn has_bare_in<'ast>(expression: ExpressionNode<'ast>) -> bool {
+    use ratel::ast::Expression::*;
+
+    match expression.item {
+        Binary(BinaryExpression { operator, left, right }) => {
+            operator == OperatorKind::In || has_bare_in(left) || has_bare_in(right)
+        },
+        Sequence(SequenceExpression { body })           => body.iter().any(|item| has_bare_in(*item)),
+        Prefix(PrefixExpression { operand, .. })        => has_bare_in(operand),
+        Conditional(ConditionalExpression { test, alternate, .. }) => {
+            has_bare_in(test) || has_bare_in(alternate)
+        },
+        Arrow(ArrowExpression { body: ArrowBody::Expression(body), .. }) => has_bare_in(body),
+        _ => false,
+    }
+}
+
+/// Write the first part of the `for` statement, in which the `in` operator needs parenthesis.
+fn write_for_init<'ast, G: Generator>(gen: &mut G, init: &ForInit<'ast>) {
+    #[inline]
+    fn write_expression<'ast, G: Generator>(gen: &mut G, expression: &ExpressionNode<'ast>, bp: u8) {
+        if has_bare_in(*expression) {
+            gen.write_byte(b'(');
+            gen.write(expression);
+            gen.write_byte(b')');
+        } else {
+            gen.write_expression(expression, bp);
+        }
+    }
+
+    match *init {
+        ForInit::Expression(ref expression) => write_expression(gen, expression, 0),
+        ForInit::Declaration(ref declaration) => {
+            gen.write(&declaration.kind);
+
+            for (index, declarator) in declaration.declarators.iter().enumerate() {
+                if index != 0 {
+                    gen.write_byte(b',');
+                    gen.write_pretty(b' ');
+                }
+
+                gen.write(&declarator.id);
+
+                if let Some(ref init) = declarator.init {
+                    gen.write_pretty(b' ');
+                    gen.write_byte(b'=');
+                    gen.write_pretty(b' ');
+                    write_expression(gen, init, 1);
+                }
+            }
+        },
+    }
+}
+
 impl<'ast, G: Generator> ToCode<G> for ForStatement<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_bytes(b"for");
         gen.write_pretty(b' ');
         gen.write_byte(b'(');
-        gen.write(&self.init);
+        if let Some(ref init) = self.init {
+            write_for_init(gen, init);
+        }
         gen.write_byte(b';');
         gen.write_pretty(b' ');
         gen.write(&self.test);
-- 
2.43.0


From cb1a0f9d3075fcf7e99be145782d7a8c4bd65293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 32/57] fix: astgen takes every numeric literal that the parser
 does

---
 ratel/src/astgen/value.rs | 86 +++++++++++++++++++++++++--------------
 1 file changed, 55 insertions(+), 31 deletions(-)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 35a17c1..a67f29b 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -30,6 +30,56 @@ pub fn is_float(value: &str) -> bool {
     value.bytes().any(|c| c == b'.')
 }
 
+#[derive(Debug, PartialEq)]
+pub enum NumberValue {
+    Integer(i64),
+    Float(f64),
+}
+
+/// Get the value of a numeric literal, as a float if it isn't written as an integer
+/// or if it doesn't fit one.
+pub fn parse_number(number: &str) -> NumberValue {
+    let bytes = number.as_bytes();
+
+    let (digits, radix) = match (bytes[0], bytes.get(1)) {
+        (b'0', Some(b'x')) | (b'0', Some(b'X')) => (&number[2..], 16),
+        (b'0', Some(b'o')) | (b'0', Some(b'O')) => (&number[2..], 8),
+        (b'0', Some(b'b')) | (b'0', Some(b'B')) => (&number[2..], 2),
+
+        // Legacy octal
+        (b'0', Some(_)) if bytes.iter().all(|byte| (b'0'..=b'7').contains(byte)) => (&number[1..], 8),
+
+        _ => (number, 10)
+    };
+
+    if !is_float(digits) {
+        if let Ok(value) = i64::from_str_radix(digits, radix) {
+            return NumberValue::Integer(value);
+        }
+    }
+
+    if radix == 10 {
+        return NumberValue::Float(number.parse().expect("Invalid number"));
+    }
+
+    // Radix is a power of two: take as many bits as there is room for, and
+    // only count those that follow. Lowest bit keeps the rounding correct.
+    let bits = radix.trailing_zeros() as i32;
+    let mut mantissa = 0u128;
+    let mut exponent = 0i32;
+
+    for digit in digits.chars().filter_map(|ch| ch.to_digit(radix)) {
+        if mantissa >> 120 == 0 {
+            mantissa = mantissa << bits | u128::from(digit);
+        } else {
+            mantissa |= u128::from(digit != 0);
+            exponent = exponent.saturating_add(bits);
+        }
+    }
+
+    NumberValue::Float(mantissa as f64 * 2f64.powi(exponent))
+}
+
 #[derive(Debug)]
 pub struct TemplateElement<'ast> {
     pub tail: bool,
@@ -197,38 +247,12 @@ impl<'ast> SerializeInLoc for Literal<'ast> {
                     state.serialize_field("value", &false)?;
                     state.serialize_field("raw", &"false")
                 },
-                Number(number) => {
-                    if number.len() > 2 {
-                        let prefix = &number[0..2];
-                        let is_hexdecimal = prefix == "0x" || prefix == "0X";
-                        let is_octal = prefix == "0o" || prefix == "0O";
-                        if is_hexdecimal || is_octal {
-                            let value = unsafe { number.get_unchecked(2..number.len()) };
-                            let radix = if is_hexdecimal { 16 } else { 8 };
-                            state.serialize_field(
-                                "value",
-                                &i32::from_str_radix(value, radix).expect("Invalid number"),
-                            )?;
-                            return state.serialize_field("raw", &number)
-                        }
-                    }
-
-                    if is_float(number) {
-                        let value: f64 = number.parse().expect("Invalid number");
-                        state.serialize_field("value", &value)?;
-                        return state.serialize_field("raw", &number)
-                    }
-
-                    let value: i64 = number.parse().expect("Invalid number");
-                    state.serialize_field("value", &value)?;
-                    state.serialize_field("raw", &number)
-                }
+                Number(number) |
                 Binary(number) => {
-                    let value = unsafe { number.get_unchecked(2..number.len()) };
-                    state.serialize_field(
-                        "value",
-                        &i32::from_str_radix(value, 2).expect("Invalid number"),
-                    )?;
+                    match parse_number(number) {
+                        NumberValue::Integer(value) => state.serialize_field("value", &value)?,
+                        NumberValue::Float(value)   => state.serialize_field("value", &value)?,
+                    }
                     state.serialize_field("raw", &number)
                 }
                 String(value) => {
-- 
2.43.0


From a2cb975b06c5cde2324f60c3b3699e0f867010b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 33/57] fix: astgen doesn't slice regular expressions in the
 middle of a character

---
 ratel/src/astgen/value.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index a67f29b..53ae65c 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -11,13 +11,7 @@ pub struct RegExLiteral<'ast> {
 
 #[inline]
 pub fn parse_regex(value: &str) -> RegExLiteral {
-    let mut end = value.len() - 1;
-    for index in (0..value.len()).rev() {
-        if "/" == &value[index..=index] {
-            end = index;
-            break;
-        }
-    }
+    let end = value.rfind('/').unwrap_or(value.len() - 1);
 
     RegExLiteral {
         pattern: &value[1..end],
-- 
2.43.0


From 61d99433db0726bf8c4a47497e7b99345f994ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 34/57] fix: astgen takes new expressions without arguments

---
 ratel/src/astgen/expression.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ratel/src/astgen/expression.rs b/ratel/src/astgen/expression.rs
index f9732ee..0bfed06 100644
--- a/ratel/src/astgen/expression.rs
+++ b/ratel/src/astgen/expression.rs
@@ -156,7 +156,7 @@ impl<'ast> SerializeInLoc for PrefixExpression<'ast> {
         let expr_type = expression_type(self.operator, prefix);
 
         if let OperatorKind::New = self.operator {
-            use self::Expression::*;
+            use self::Expression::Call;
             match self.operand.item {
                 Call(CallExpression { ref callee, ref arguments }) => {
                     self.in_loc(serializer, expr_type, 2, |state| {
@@ -164,7 +164,7 @@ impl<'ast> SerializeInLoc for PrefixExpression<'ast> {
                         state.serialize_field("arguments", arguments)
                     })
                 },
-                Literal(_) => {
+                _ => {
                     self.in_loc(serializer, expr_type, 2, |state| {
                         // 0 byte array, will be optimized away
                         let arguments: [(); 0] = [];
@@ -172,7 +172,6 @@ impl<'ast> SerializeInLoc for PrefixExpression<'ast> {
                         state.serialize_field("arguments", &arguments)
                     })
                 },
-                _ => unimplemented!()
             }
         } else {
             self.in_loc(serializer, expr_type, 3, |state| {
-- 
2.43.0


From abbf7014845b660dd0346ef3327f47df6639d4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 35/57] fix: astgen takes class fields, and marks methods with
 a computed key as such

---
 ratel/src/ast/expression.rs  | 10 ++++++++++
 ratel/src/astgen/function.rs | 11 ++++++++---
 ratel/src/astgen/value.rs    | 10 ++--------
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/ratel/src/ast/expression.rs b/ratel/src/ast/expression.rs
index 960cb90..5e845c7 100644
--- a/ratel/src/ast/expression.rs
+++ b/ratel/src/ast/expression.rs
@@ -8,6 +8,16 @@ pub enum PropertyKey<'ast> {
     Binary(&'ast str),
 }
 
+impl<'ast> PropertyKey<'ast> {
+    #[inline]
+    pub fn is_computed(&self) -> bool {
+        match *self {
+            PropertyKey::Computed(_) => true,
+            _                        => false,
+        }
+    }
+}
+
 #[derive(Debug, PartialEq, Clone, Copy)]
 pub enum Property<'ast> {
     Shorthand(&'ast str),
diff --git a/ratel/src/astgen/function.rs b/ratel/src/astgen/function.rs
index 63bb687..15888b0 100644
--- a/ratel/src/astgen/function.rs
+++ b/ratel/src/astgen/function.rs
@@ -31,13 +31,18 @@ impl<'ast> SerializeInLoc for ClassMember<'ast> {
                 self.in_loc(serializer, "MethodDefinition", 5, |state| {
                     state.serialize_field("kind", &kind)?;
                     state.serialize_field("static", &is_static)?;
-                    state.serialize_field("computed", &false)?;
+                    state.serialize_field("computed", &key.is_computed())?;
                     state.serialize_field("key", &*key)?;
                     state.serialize_field("value", &value)
                 })
             },
-            Literal { .. } => {
-                unimplemented!()
+            Literal { is_static, key, value } => {
+                self.in_loc(serializer, "PropertyDefinition", 4, |state| {
+                    state.serialize_field("static", &is_static)?;
+                    state.serialize_field("computed", &key.is_computed())?;
+                    state.serialize_field("key", &*key)?;
+                    state.serialize_field("value", &value)
+                })
             }
         }
     }
diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 53ae65c..e3f1e04 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -158,17 +158,11 @@ impl<'ast> SerializeInLoc for Property<'ast> {
                 Expression::Identifier(value).serialize(serializer)
             }
             Literal { key, value } => {
-                let computed = if let PropertyKey::Computed(_) = key.item {
-                    true
-                } else {
-                    false
-                };
-
                 self.in_loc(serializer, "Property", 6, |state| {
                     state.serialize_field("key", &*key)?;
                     state.serialize_field("method", &false)?;
                     state.serialize_field("shorthand", &false)?;
-                    state.serialize_field("computed", &computed)?;
+                    state.serialize_field("computed", &key.is_computed())?;
                     state.serialize_field("value", &value)?;
                     state.serialize_field("kind", &"init")
                 })
@@ -177,7 +171,7 @@ impl<'ast> SerializeInLoc for Property<'ast> {
                 state.serialize_field("key", &*key)?;
                 state.serialize_field("method", &true)?;
                 state.serialize_field("shorthand", &false)?;
-                state.serialize_field("computed", &false)?;
+                state.serialize_field("computed", &key.is_computed())?;
                 state.serialize_field("value", &value)?;
                 state.serialize_field("kind", &"init")
             }),
-- 
2.43.0


From 87068d60248e83bfc76577f66eaaaff097676fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 36/57] fix: astgen takes holes in array patterns

---
 ratel/src/astgen/value.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index e3f1e04..0e8c0bb 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -271,6 +271,15 @@ impl<'ast> SerializeInLoc for Pattern<'ast> {
                 state.serialize_field("keys", &properties)
             }),
             ArrayPattern { elements } => self.in_loc(serializer, "ArrayPattern", 1, |state| {
+                let mut elements = elements.iter()
+                    .map(|element| if element.item != Void { Some(element) } else { None })
+                    .collect::<Vec<_>>();
+
+                // What follows the last comma isn't an element
+                if let Some(&None) = elements.last() {
+                    elements.pop();
+                }
+
                 state.serialize_field("elements", &elements)
             }),
             AssignmentPattern { left, right } => {
-- 
2.43.0


From 1907f9052350cbe4513bb5aa7a3770ddafa016c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 37/57] fix: an error at the start of a line is reported on
 that line

---
 ratel/src/error.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ratel/src/error.rs b/ratel/src/error.rs
index a4d15d7..8802ab9 100644
--- a/ratel/src/error.rs
+++ b/ratel/src/error.rs
@@ -49,13 +49,10 @@ impl Display for ParseError {
                 start,
                 end
             } => {
-                let (lineno, line) = source[..start]
-                                       .lines()
-                                       .enumerate()
-                                       .last()
-                                       .unwrap_or((0, ""));
-
-                let colno = line.chars().count();
+                let before = &source[..start];
+                let lineno = before.matches('\n').count();
+                let line_start = before.rfind('\n').map_or(0, |index| index + 1);
+                let colno = before[line_start..].chars().count();
                 let token_len = source[start..end].chars().count();
 
                 writeln!(f, "Unexpected token at {}:{}\n", lineno + 1, colno + 1)?;
-- 
2.43.0


From 831bbe51dfa69fc809fc0ffeecb9ad790d11cbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 38/57] fix: visitor pushes the import declaration it later
 pops as a parent

---
 ratel-visitor/src/statement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ratel-visitor/src/statement.rs b/ratel-visitor/src/statement.rs
index a5e3bc9..c4226f9 100644
--- a/ratel-visitor/src/statement.rs
+++ b/ratel-visitor/src/statement.rs
@@ -114,6 +114,7 @@ impl<'ast> Visitable<'ast> for StatementNode<'ast> {
             },
             Import(ref import) => {
                 visitor.on_import_declaration_statement(import, self);
+                visitor.push_parent(ParentNode::from(self));
                 import.visit_with(visitor);
             }
         }
-- 
2.43.0


From f68922cce5c7349206feddbcc6b662040af59796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 39/57] fix: visitor reports the program body as a statement
 list

---
 ratel-visitor/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ratel-visitor/src/lib.rs b/ratel-visitor/src/lib.rs
index 6cdd0a6..b2a37b9 100644
--- a/ratel-visitor/src/lib.rs
+++ b/ratel-visitor/src/lib.rs
@@ -126,6 +126,7 @@ impl<'ast> Visitable<'ast> for Module<'ast> {
         V: Visitor<'ast>,
     {
         let body = self.body();
+        visitor.on_statement_list(body);
         for item in body {
             item.visit_with(visitor);
         }
-- 
2.43.0


From 94a82e9e5f5ceddb53f1e76dfc80f3ba5a2eedc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 40/57] fix: arrow functions are a function scope

---
 ratel-visitor/src/expression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ratel-visitor/src/expression.rs b/ratel-visitor/src/expression.rs
index b6b1b3c..04217af 100644
--- a/ratel-visitor/src/expression.rs
+++ b/ratel-visitor/src/expression.rs
@@ -1,7 +1,7 @@
 use ratel::ast::{Identifier, Expression, ExpressionNode, StatementNode, Literal};
 use ratel::ast::expression::*;
 
-use {Visitor, Visitable, ParentNode};
+use {Visitor, Visitable, ParentNode, ScopeKind};
 
 
 impl<'ast> Visitable<'ast> for ExpressionNode<'ast> {
@@ -331,8 +331,10 @@ impl<'ast> Visitable<'ast> for ArrowExpression<'ast> {
     where
         V: Visitor<'ast>,
     {
+        visitor.on_enter_scope(ScopeKind::Function);
         self.params.visit_with(visitor);
         self.body.visit_with(visitor);
+        visitor.on_leave_scope();
     }
 }
 
-- 
2.43.0


From 178ae86c06a7a1697e81eba2e07e57bb6ea66c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 41/57] fix: catch parameter is declared in the scope of the
 catch block

---
 ratel-visitor/src/statement.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ratel-visitor/src/statement.rs b/ratel-visitor/src/statement.rs
index c4226f9..c2d190e 100644
--- a/ratel-visitor/src/statement.rs
+++ b/ratel-visitor/src/statement.rs
@@ -325,8 +325,12 @@ impl<'ast> Visitable<'ast> for CatchClause<'ast> {
     where
         V: Visitor<'ast>,
     {
+        // Call visit on the StatementList instead of BlockNode since we
+        // need to make sure that the parameter ends up inside the block
+        visitor.on_enter_scope(ScopeKind::Block);
         self.param.visit_with(visitor);
-        self.body.visit_with(visitor);
+        self.body.body.visit_with(visitor);
+        visitor.on_leave_scope();
     }
 }
 
-- 
2.43.0


From a096017f0b72f4fa278813f524245bd0142b0069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 42/57] fix: imported bindings are declarations, not uses

---
 ratel-visitor/src/statement.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ratel-visitor/src/statement.rs b/ratel-visitor/src/statement.rs
index c2d190e..0b346bb 100644
--- a/ratel-visitor/src/statement.rs
+++ b/ratel-visitor/src/statement.rs
@@ -397,7 +397,7 @@ impl<'ast> Visitable<'ast> for ImportDeclaration<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.source.visit_with(visitor);
+        // The source is a string, not a reference
         self.specifiers.visit_with(visitor);
     }
 }
@@ -426,8 +426,8 @@ impl<'ast> Visitable<'ast> for ImportSpecifier<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.local.visit_with(visitor);
-        self.imported.visit_with(visitor);
+        // The imported name belongs to the other module
+        visitor.on_reference_declaration(&self.local.item);
     }
 }
 
@@ -439,7 +439,7 @@ impl<'ast> Visitable<'ast> for ImportDefaultSpecifier<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.local.visit_with(visitor);
+        visitor.on_reference_declaration(&self.local.item);
     }
 }
 
@@ -451,6 +451,6 @@ impl<'ast> Visitable<'ast> for ImportNamespaceSpecifier<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.local.visit_with(visitor);
+        visitor.on_reference_declaration(&self.local.item);
     }
 }
-- 
2.43.0


From 08861304b368ae61acb6d29668602770349661ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 43/57] fix: the names in new.target are not references

---
 ratel-visitor/src/expression.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ratel-visitor/src/expression.rs b/ratel-visitor/src/expression.rs
index 04217af..b30eb2c 100644
--- a/ratel-visitor/src/expression.rs
+++ b/ratel-visitor/src/expression.rs
@@ -198,12 +198,8 @@ impl<'ast> Visitable<'ast> for MetaPropertyExpression<'ast> {
     type Parent = ExpressionNode<'ast>;
 
     #[inline]
-    fn visit_with<V>(&'ast self, visitor: &mut V)
-    where
-        V: Visitor<'ast>,
-    {
-        self.meta.visit_with(visitor);
-        self.property.visit_with(visitor);
+    fn visit_with<V: Visitor<'ast>>(&self, _: &mut V) {
+        // Neither `new` nor `target` is a reference
     }
 }
 
-- 
2.43.0


From a0ce63b9d684da26e9b58b145be0da90472baff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 44/57] fix: rest elements and object patterns declare the
 names they bind

---
 ratel-visitor/src/lib.rs | 50 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/ratel-visitor/src/lib.rs b/ratel-visitor/src/lib.rs
index b2a37b9..bd6d328 100644
--- a/ratel-visitor/src/lib.rs
+++ b/ratel-visitor/src/lib.rs
@@ -6,7 +6,7 @@ extern crate ratel;
 use ratel::ast::expression::*;
 use ratel::ast::statement::*;
 use ratel::ast::{ExpressionList, ExpressionNode, StatementList, StatementNode};
-use ratel::ast::{Identifier, Literal, Node, NodeList, Pattern};
+use ratel::ast::{Identifier, Literal, Node, NodeList, OperatorKind, Pattern};
 
 use ratel::Module;
 
@@ -145,13 +145,15 @@ impl<'ast> Visitable<'ast> for Pattern<'ast> {
             Pattern::Void => {}
             Pattern::Identifier(ref ident) => visitor.on_reference_declaration(ident),
             Pattern::ObjectPattern { ref properties } => {
-                properties.visit_with(visitor);
+                for property in properties.iter() {
+                    visit_property_binding(property, visitor);
+                }
             }
             Pattern::ArrayPattern { ref elements } => {
                 elements.visit_with(visitor);
             }
             Pattern::RestElement { ref argument } => {
-                argument.visit_with(visitor);
+                visitor.on_reference_declaration(&argument.item);
             }
             Pattern::AssignmentPattern {
                 ref left,
@@ -164,6 +166,48 @@ impl<'ast> Visitable<'ast> for Pattern<'ast> {
     }
 }
 
+/// Visit a property of an `ObjectPattern`, the names in it are declared.
+fn visit_property_binding<'ast, V>(property: &'ast Property<'ast>, visitor: &mut V)
+where
+    V: Visitor<'ast>,
+{
+    match *property {
+        Property::Shorthand(ref ident) => visitor.on_reference_declaration(ident),
+        Property::Literal { ref key, ref value } => {
+            key.visit_with(visitor);
+            visit_binding(value, visitor);
+        }
+        Property::Spread { ref argument } => visit_binding(argument, visitor),
+        Property::Method { .. } => property.visit_with(visitor),
+    }
+}
+
+/// Patterns nested in an `ObjectPattern` are represented as expressions.
+fn visit_binding<'ast, V>(node: &'ast ExpressionNode<'ast>, visitor: &mut V)
+where
+    V: Visitor<'ast>,
+{
+    match node.item {
+        Expression::Identifier(ref ident) => visitor.on_reference_declaration(ident),
+        Expression::Object(ref object) => {
+            for property in object.body.iter() {
+                visit_property_binding(property, visitor);
+            }
+        }
+        Expression::Array(ref array) => {
+            for element in array.body.iter() {
+                visit_binding(element, visitor);
+            }
+        }
+        Expression::Spread(ref spread) => visit_binding(&spread.argument, visitor),
+        Expression::Binary(ref binary) if binary.operator == OperatorKind::Assign => {
+            visit_binding(&binary.left, visitor);
+            binary.right.visit_with(visitor);
+        }
+        _ => node.visit_with(visitor),
+    }
+}
+
 impl<'ast> Visitable<'ast> for PropertyKey<'ast> {
     type Parent = Node<'ast, Self>;
 
-- 
2.43.0


From 0efbea082dfc9a2dc31024a6125d3ffca850c6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 45/57] fix: swap replaces the node it is given instead of a
 copy of it

---
 ratel-transformer/src/es2015/arrow.rs | 2 +-
 ratel-transformer/src/lib.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ratel-transformer/src/es2015/arrow.rs b/ratel-transformer/src/es2015/arrow.rs
index c01ea7b..3c51daa 100644
--- a/ratel-transformer/src/es2015/arrow.rs
+++ b/ratel-transformer/src/es2015/arrow.rs
@@ -32,7 +32,7 @@ impl<'ast> Visitor<'ast> for TransformArrow<'ast> {
             }
         };
 
-        self.ctx.swap(*ptr, Function {
+        self.ctx.swap(ptr, Function {
             name: OptionalName::empty(),
             generator: false,
             params: node.params,
diff --git a/ratel-transformer/src/lib.rs b/ratel-transformer/src/lib.rs
index 7a345a4..a9c6589 100644
--- a/ratel-transformer/src/lib.rs
+++ b/ratel-transformer/src/lib.rs
@@ -61,7 +61,7 @@ impl<'ast> TransformerCtxt<'ast> {
     }
 
     #[inline]
-    pub fn swap<T, I>(&self, ptr: Node<'ast, T>, item: I) where
+    pub fn swap<T, I>(&self, ptr: &Node<'ast, T>, item: I) where
         T: Copy + 'ast,
         I: Into<T>,
     {
-- 
2.43.0


From 2d25bc0ece51dfbd8451c7ad107633ba87343c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 46/57] fix: transform only needs a shared borrow, so its
 result can be used

---
 ratel-transformer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel-transformer/src/lib.rs b/ratel-transformer/src/lib.rs
index a9c6589..3f86670 100644
--- a/ratel-transformer/src/lib.rs
+++ b/ratel-transformer/src/lib.rs
@@ -75,7 +75,7 @@ impl<'ast> TransformerCtxt<'ast> {
     }
 }
 
-pub fn transform<'ast>(module: &'ast mut Module<'ast>) {
+pub fn transform<'ast>(module: &'ast Module<'ast>) {
     let arena = module.arena();
 
     let ctx = TransformerCtxt {
-- 
2.43.0


From 97cf96d82e0315a274d5dbd058aa902e23fc76f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 47/57] fix: an arrow function returned by an arrow function is
 transformed too

---
 ratel-transformer/src/es2015/arrow.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/ratel-transformer/src/es2015/arrow.rs b/ratel-transformer/src/es2015/arrow.rs
index 3c51daa..3f278ce 100644
--- a/ratel-transformer/src/es2015/arrow.rs
+++ b/ratel-transformer/src/es2015/arrow.rs
@@ -1,4 +1,4 @@
-use ratel::ast::{NodeList, ExpressionNode, Function, Name, OptionalName, Block};
+use ratel::ast::{NodeList, Expression, ExpressionNode, Function, Name, OptionalName, Block};
 use ratel::ast::expression::{ArrowExpression, ArrowBody};
 use ratel::ast::statement::ReturnStatement;
 use ratel_visitor::Visitor;
@@ -18,12 +18,23 @@ impl<'ast> TransformArrow<'ast> {
 }
 
 impl<'ast> Visitor<'ast> for TransformArrow<'ast> {
-    fn on_arrow_expression(&mut self, node: &ArrowExpression<'ast>, ptr: &'ast ExpressionNode<'ast>) {
+    fn on_arrow_expression(&mut self, _: &ArrowExpression<'ast>, ptr: &'ast ExpressionNode<'ast>) {
+        let node = match ptr.item {
+            Expression::Arrow(ref node) => node,
+            _                           => return,
+        };
+
         let body = match node.body {
-            ArrowBody::Block(block)     => block,
-            ArrowBody::Expression(expr) => {
-                let ret = self.ctx.alloc_as_loc(&expr, ReturnStatement {
-                    value: Some(expr)
+            ArrowBody::Block(block)         => block,
+            ArrowBody::Expression(ref expr) => {
+                // The `Function` gets a copy of this node, so it has to be
+                // replaced before the traversal gets to it.
+                if let Expression::Arrow(ref nested) = expr.item {
+                    self.on_arrow_expression(nested, expr);
+                }
+
+                let ret = self.ctx.alloc_as_loc(expr, ReturnStatement {
+                    value: Some(*expr)
                 });
 
                 self.ctx.alloc_as_loc(&ret, Block {
-- 
2.43.0


From f1147798b12bbbb9b8768a2403e7e68b12a0570d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 48/57] fix: get and set before the name of a class field are
 an error

---
 ratel/src/parser/function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index a9bcbdd..3c868c9 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -175,7 +175,7 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
                     value,
                 }
             },
-            OperatorAssign => {
+            OperatorAssign if kind != MethodKind::Get && kind != MethodKind::Set => {
                 par.lexer.consume();
 
                 let expression = par.expression::<B0>();
-- 
2.43.0


From 4c334199649cf382a6118ac5fddf2a31186b5f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 49/57] fix: the location of the key of a getter or setter is
 that of its name

---
 ratel/src/parser/function.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index 3c868c9..a44565b 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -115,8 +115,8 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
 
         let mut kind = MethodKind::Method;
 
-        let token_start = par.lexer.start();
-        let token_end;
+        let mut token_start = par.lexer.start();
+        let mut token_end;
 
         let key = match par.lexer.token {
             _ if par.lexer.token.is_word() => {
@@ -130,6 +130,9 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
                         _     => return par.error()
                     };
                     label = par.lexer.token_as_str();
+                    let loc = par.lexer.loc();
+                    token_start = loc.0;
+                    token_end = loc.1;
                     par.lexer.consume();
                 } else if !is_static && label == "constructor" {
                     kind = MethodKind::Constructor;
-- 
2.43.0


From 7a487150d1dc5c56804ab95e937e152b17c4d4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:37 +0000
Subject: [PATCH 50/57] fix: the statements of a switch case and the names of
 an import survive an optimised build

---
 ratel/src/parser/statement.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 6011ed0..c7037ee 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -1,4 +1,4 @@
-use toolshed::list::{ListBuilder, GrowableList};
+use toolshed::list::ListBuilder;
 use parser::{Parser, Parse, ANY, B0, B15};
 use lexer::Token::*;
 use lexer::Asi;
@@ -134,7 +134,7 @@ impl<'ast> Parse<'ast> for SwitchCase<'ast> {
         let mut end = par.lexer.end();
         expect!(par, Colon);
 
-        let builder = GrowableList::new();
+        let mut builder: Option<ListBuilder<StatementNode<'ast>>> = None;
 
         loop {
             match par.lexer.token {
@@ -142,19 +142,29 @@ impl<'ast> Parse<'ast> for SwitchCase<'ast> {
                 _ => {
                     let statement = par.statement();
                     end = statement.end;
-                    builder.push(par.arena, statement);
+                    par.push_to(&mut builder, statement);
                 }
             }
         }
 
         par.alloc_at_loc(start, end, SwitchCase {
             test,
-            consequent: builder.as_list()
+            consequent: builder.map_or_else(NodeList::empty, |builder| builder.as_list())
         })
     }
 }
 
 impl<'ast> Parser<'ast> {
+    /// Push to a list that may end up empty. A `GrowableList` on the stack won't do: it sets
+    /// its first element behind a shared reference, an optimised build can miss that.
+    #[inline]
+    fn push_to<T: Copy>(&mut self, builder: &mut Option<ListBuilder<'ast, Node<'ast, T>>>, node: Node<'ast, T>) {
+        match *builder {
+            Some(ref builder) => builder.push(self.arena, node),
+            None              => *builder = Some(ListBuilder::new(self.arena, node)),
+        }
+    }
+
     #[inline]
     pub fn statement(&mut self) -> StatementNode<'ast> {
         unsafe { (*(&STMT_HANDLERS as *const StatementHandler).offset(self.lexer.token as isize))(self) }
@@ -620,7 +630,7 @@ impl<'ast> Parser<'ast> {
         let import = self.lexer.token_as_str();
         let (start , end) = self.lexer.loc();
 
-        let builder: GrowableList<Node<'ast, ForImportSpecifier>> = GrowableList::new();
+        let mut builder: Option<ListBuilder<Node<'ast, ForImportSpecifier>>> = None;
         self.lexer.consume();
         if self.lexer.token == Accessor || self.lexer.token == ParenOpen {
             // call or access. example: `import()` `import.filed`
@@ -638,7 +648,7 @@ impl<'ast> Parser<'ast> {
                 let node = self.alloc_at_loc(start, end, ImportDefaultSpecifier {
                     local: id,
                 });
-                builder.push(self.arena, node);
+                self.push_to(&mut builder, node);
 
                 match self.lexer.token {
                     Comma => {
@@ -683,7 +693,8 @@ impl<'ast> Parser<'ast> {
                                     import.local = local;
                                 }
                                 let end = self.lexer.end();
-                                builder.push(self.arena, self.alloc_at_loc(start, end, import));
+                                let node = self.alloc_at_loc(start, end, import);
+                                self.push_to(&mut builder, node);
                                 match self.lexer.token {
                                     Comma => {
                                         self.lexer.consume();
@@ -721,7 +732,7 @@ impl<'ast> Parser<'ast> {
                     let ns = self.alloc_at_loc(start, end, ImportNamespaceSpecifier{
                         local,
                     });
-                    builder.push(self.arena, ns);
+                    self.push_to(&mut builder, ns);
                 },
                 _ => {
                     self.error::<()>();
@@ -750,7 +761,7 @@ impl<'ast> Parser<'ast> {
         self.expect_semicolon();
 
         self.alloc_at_loc(start, end, ImportDeclaration {
-            specifiers: builder.as_list(),
+            specifiers: builder.map_or_else(NodeList::empty, |builder| builder.as_list()),
             source,
         })
     }
-- 
2.43.0


From 97c877fdfcbfb1e7a36cd72bc19e88d69fe7c885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:57 +0000
Subject: [PATCH 51/57] fix: the body of a module cannot outlive the module it
 is borrowed from

---
 ratel/src/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/module.rs b/ratel/src/module.rs
index e9067a9..e205320 100644
--- a/ratel/src/module.rs
+++ b/ratel/src/module.rs
@@ -25,7 +25,7 @@ impl<'ast> Module<'ast> {
 
     /// Get the body of the module as a list of statements.
     #[inline]
-    pub fn body(&self) -> StatementList<'ast> {
+    pub fn body<'a>(&'a self) -> StatementList<'a> {
         unsafe { self.body.into_list() }
     }
 
-- 
2.43.0


From 5c1b92e6c83d7f3d928b36d7c376bc3457f5454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 52/57] fix: every reserved word can be the key of a property
 or class member

---
 ratel/src/lexer/token.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ratel/src/lexer/token.rs b/ratel/src/lexer/token.rs
index e1f0eef..8dd73b4 100644
--- a/ratel/src/lexer/token.rs
+++ b/ratel/src/lexer/token.rs
@@ -161,10 +161,21 @@ impl Token {
             OperatorVoid       |
             OperatorDelete     |
             OperatorInstanceof |
+            OperatorIn         |
+            DeclarationVar     |
+            DeclarationLet     |
+            DeclarationConst   |
             LiteralTrue        |
             LiteralFalse       |
             LiteralNull        |
-            LiteralUndefined   => true,
+            LiteralUndefined   |
+            ReservedEnum       |
+            ReservedImplements |
+            ReservedPackage    |
+            ReservedProtected  |
+            ReservedInterface  |
+            ReservedPrivate    |
+            ReservedPublic     => true,
 
             _                  => false,
         }
-- 
2.43.0


From 90d5b2ce668c4216ceef08df49e22907ca5b9031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 53/57] fix: a reserved word is no shorthand property

---
 ratel/src/parser/expression.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 634e8a0..0ce60f4 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -443,12 +443,31 @@ impl<'ast> Parser<'ast> {
                 let (start, end) = self.lexer.loc();
                 let label = self.lexer.token_as_str();
 
+                // A shorthand is a reference, which most reserved words cannot be
+                let is_reference = match self.lexer.token {
+                    Identifier         |
+                    LiteralUndefined   |
+                    DeclarationLet     |
+                    Static             |
+                    Yield              |
+                    ReservedImplements |
+                    ReservedPackage    |
+                    ReservedProtected  |
+                    ReservedInterface  |
+                    ReservedPrivate    |
+                    ReservedPublic     => true,
+
+                    _                  => false,
+                };
+
                 self.lexer.consume();
 
                 match self.lexer.token {
                     Colon | ParenOpen => self.alloc_at_loc(start, end, PropertyKey::Literal(label)),
 
-                    _ => return self.alloc_at_loc(start, end, Property::Shorthand(label)),
+                    _ if is_reference => return self.alloc_at_loc(start, end, Property::Shorthand(label)),
+
+                    _ => return self.error(),
                 }
             },
             OperatorSpread => {
-- 
2.43.0


From 8b29fc4cefc67109d136ce248b5aca76671b2228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:33 +0000
Subject: [PATCH 54/57] fix: two class fields on a line have a semicolon
 between them

---
 ratel/src/parser/function.rs  | 10 ++++++----
 ratel/src/parser/statement.rs |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index a44565b..0acb8e3 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -171,6 +171,10 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
 
                 end = value.end;
 
+                if par.lexer.token == Semicolon {
+                    par.lexer.consume();
+                }
+
                 ClassMember::Method {
                     is_static,
                     key,
@@ -185,6 +189,8 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
 
                 end = expression.end;
 
+                par.expect_semicolon();
+
                 ClassMember::Literal {
                     is_static,
                     key,
@@ -194,10 +200,6 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
             _ => return par.error(),
         };
 
-        if par.lexer.token == Semicolon {
-            par.lexer.consume();
-        }
-
         par.alloc_at_loc(start, end, member)
     }
 }
diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index c7037ee..bac2a1a 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -173,7 +173,7 @@ impl<'ast> Parser<'ast> {
     /// Expect a semicolon to terminate a statement. Will assume a semicolon
     /// following the ASI rules.
     #[inline]
-    fn expect_semicolon(&mut self) {
+    pub fn expect_semicolon(&mut self) {
         match self.asi() {
             Asi::ExplicitSemicolon => self.lexer.consume(),
             Asi::ImplicitSemicolon => {},
-- 
2.43.0


From 5c7787a3c14a9aedac239e48559612e683f77570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:46 +0000
Subject: [PATCH 55/57] fix: an arrow function's body ends the expression, so
 that a semicolon is inserted before ( [ / + - on the next line

---
 ratel/src/parser/expression.rs | 2 ++
 ratel/src/parser/mod.rs        | 5 +++++
 ratel/src/parser/nested.rs     | 4 ++++
 3 files changed, 11 insertions(+)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 0ce60f4..c6369ef 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -274,6 +274,8 @@ impl<'ast> Parser<'ast> {
             _         => ArrowBody::Expression(self.expression::<B0>()),
         };
 
+        self.arrow_end = self.lexer.start();
+
         ArrowExpression {
             params,
             body,
diff --git a/ratel/src/parser/mod.rs b/ratel/src/parser/mod.rs
index 2f76879..49f7a37 100644
--- a/ratel/src/parser/mod.rs
+++ b/ratel/src/parser/mod.rs
@@ -36,6 +36,10 @@ pub struct Parser<'ast> {
     /// Errors occurred during parsing
     errors: Vec<Error>,
 
+    /// Start of the token after the last arrow function, which no
+    /// operator can apply to unless it's put in parentheses
+    arrow_end: u32,
+
     /// AST under construction
     body: NodeList<'ast, Statement<'ast>>,
 }
@@ -46,6 +50,7 @@ impl<'ast> Parser<'ast> {
             arena,
             lexer: Lexer::new(arena, source),
             errors: Vec::new(),
+            arrow_end: u32::max_value(),
             body: NodeList::empty(),
         }
     }
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 0fabd65..1ea1b80 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -450,6 +450,10 @@ impl<'ast> Parser<'ast> {
         B: BindingPower
     {
         while let Some(handler) = B::handler(self.asi(), self.lexer.token) {
+            if self.arrow_end == self.lexer.start() && self.lexer.token != Comma {
+                break;
+            }
+
             left = handler(self, left);
         }
 
-- 
2.43.0


From 3c13022b0a386dd11fb24a97ade7de1ba5526b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:27 +0000
Subject: [PATCH 56/57] fix: astgen announces the number of fields it writes

---
 ratel/src/astgen/function.rs  | 2 +-
 ratel/src/astgen/statement.rs | 2 +-
 ratel/src/astgen/value.rs     | 7 ++++++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/ratel/src/astgen/function.rs b/ratel/src/astgen/function.rs
index 15888b0..5e7f3e9 100644
--- a/ratel/src/astgen/function.rs
+++ b/ratel/src/astgen/function.rs
@@ -125,7 +125,7 @@ where
     where
         S: Serializer,
     {
-        self.in_loc(serializer, N::IN_FUNCTION, 3, |state| {
+        self.in_loc(serializer, N::IN_FUNCTION, 4, |state| {
             state.serialize_field("generator", &self.generator)?;
             state.serialize_field("id", &self.name)?;
             state.serialize_field("params", &self.params)?;
diff --git a/ratel/src/astgen/statement.rs b/ratel/src/astgen/statement.rs
index 8c23823..e6a42f8 100644
--- a/ratel/src/astgen/statement.rs
+++ b/ratel/src/astgen/statement.rs
@@ -207,7 +207,7 @@ impl<'ast> SerializeInLoc for ImportDeclaration<'ast> {
     where
         S: Serializer,
     {
-        self.in_loc(serializer, "ImportDeclaration", 1, |state| {
+        self.in_loc(serializer, "ImportDeclaration", 2, |state| {
             state.serialize_field("specifiers", &self.specifiers)?;
             state.serialize_field("source", &self.source)
         })
diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 0e8c0bb..c84b212 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -218,7 +218,12 @@ impl<'ast> SerializeInLoc for Literal<'ast> {
             _ => "Literal",
         };
 
-        self.in_loc(serializer, literal_type, 1, |state| {
+        let length = match *self {
+            Undefined => 1,
+            _ => 2,
+        };
+
+        self.in_loc(serializer, literal_type, length, |state| {
             match *self {
                 Undefined => {
                     state.serialize_field("raw", &"undefined")
-- 
2.43.0


From 53177468271d3fefe3698a90f00a9bc2d81b7365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 57/57] fix: no parentheses around operands whose precedence
 does not need them

---
 ratel-codegen/src/expression.rs | 34 ++++++++++++++++++++++++++++-----
 ratel/src/ast/expression.rs     |  8 ++++++++
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 3f61e77..572e8c9 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -1,3 +1,4 @@
+use std::cmp;
 use ratel::ast::{Expression, ExpressionNode, Literal, OperatorKind, OperatorCategory, Property, PropertyKey, Pattern};
 use ratel::ast::expression::*;
 
@@ -28,6 +29,21 @@ pub fn leftmost<'ast>(mut expression: ExpressionNode<'ast>) -> ExpressionNode<'a
     }
 }
 
+/// Whether the arguments of `new` would end up in the middle of the expression
+fn has_call<'ast>(mut expression: ExpressionNode<'ast>) -> bool {
+    use ratel::ast::Expression::*;
+
+    loop {
+        expression = match expression.item {
+            Member(MemberExpression { object, .. })                 => object,
+            ComputedMember(ComputedMemberExpression { object, .. }) => object,
+            TaggedTemplate(TaggedTemplateExpression { tag, .. })    => tag,
+            Call(_)                                                 => return true,
+            _                                                       => return false,
+        };
+    }
+}
+
 impl<'ast, G: Generator> ToCode<G> for Expression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
@@ -160,7 +176,7 @@ impl<'ast, G: Generator> ToCode<G> for MemberExpression<'ast> {
                 gen.write(&number);
                 gen.write_byte(b')');
             },
-            _ => gen.write_expression(&self.object, 19),
+            _ => gen.write_expression(&self.object, 17),
         }
         gen.write_byte(b'.');
         gen.write(&self.property);
@@ -170,7 +186,7 @@ impl<'ast, G: Generator> ToCode<G> for MemberExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for ComputedMemberExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write_expression(&self.object, 19);
+        gen.write_expression(&self.object, 17);
         gen.write_byte(b'[');
         gen.write(&self.property);
         gen.write_byte(b']');
@@ -213,6 +229,13 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
             _                                     => (bp, bp + 1),
         };
 
+        // Binds tighter than the others with its binding power, and
+        // is right-associative.
+        let bp_right = match self.right.item {
+            Expression::Binary(BinaryExpression { operator: OperatorKind::Exponent, .. }) => cmp::min(bp_right, 14),
+            _ => bp_right,
+        };
+
         // Expression that directly follows the operator
         let next = if self.right.binding_power() < bp_right {
             None
@@ -299,12 +322,13 @@ impl<'ast, G: Generator> ToCode<G> for PrefixExpression<'ast> {
         match (self.operator, self.operand.item) {
             // Arguments of the `new` operator
             (OperatorKind::New, Expression::Call(CallExpression { callee, arguments })) => {
-                gen.write_expression(&callee, 18);
+                gen.write_expression(&callee, if has_call(callee) { 101 } else { 18 });
                 gen.write_byte(b'(');
                 gen.write_expression_list(&arguments);
                 gen.write_byte(b')');
             },
-            (OperatorKind::New, _) => gen.write_expression(&self.operand, 18),
+            (OperatorKind::New, Expression::Prefix(PrefixExpression { operator: OperatorKind::New, .. })) => gen.write(&self.operand),
+            (OperatorKind::New, _) => gen.write_expression(&self.operand, if has_call(self.operand) { 101 } else { 18 }),
             _ => gen.write_expression(&self.operand, 15),
         }
     }
@@ -365,7 +389,7 @@ impl<'ast, G: Generator> ToCode<G> for TemplateLiteral<'ast> {
 impl<'ast, G: Generator> ToCode<G> for TaggedTemplateExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write_expression(&self.tag, 19);
+        gen.write_expression(&self.tag, 17);
         gen.write(&self.quasi);
     }
 }
diff --git a/ratel/src/ast/expression.rs b/ratel/src/ast/expression.rs
index 5e845c7..9969cf1 100644
--- a/ratel/src/ast/expression.rs
+++ b/ratel/src/ast/expression.rs
@@ -205,6 +205,14 @@ impl<'ast> Expression<'ast> {
 
             Call(_) => 17,
 
+            Prefix(PrefixExpression { operator: OperatorKind::New, ref operand }) => match operand.item {
+                Call(_) => 18,
+                _       => 16,
+            },
+
+            Prefix(PrefixExpression { operator: OperatorKind::Increment, .. }) |
+            Prefix(PrefixExpression { operator: OperatorKind::Decrement, .. }) => 16,
+
             Prefix(_) => 15,
 
             Binary(BinaryExpression { ref operator, .. })   |
-- 
2.43.0

