From 0f4ef5fc844e9cc55ee31109691915c1c0e766f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:51 +0000
Subject: [PATCH 01/42] fix: write control characters and U+8000..U+FFFF as
 valid JSON string content

---
 src/core/json/encoder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index 2529cf4..73d08d0 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -30,13 +30,14 @@ use super::super::types::Path;
 
 // JSON Encoder and Decoder
 
+const HEX_DIGITS: &[u8; 16] = b"0123456789abcdef";
+
 fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
     let mut buffer: [u8; 6] = [0; 6];
 
     // Special values that need to be escaped
     // encode unicode sequence based on value range
     match value {
-        '\0' => writer.write("\\0".as_bytes())?,
         '\\' => writer.write("\\\\".as_bytes())?,
         '/' => writer.write("\\/".as_bytes())?,
         '\"' => writer.write("\\\"".as_bytes())?,
@@ -50,8 +51,8 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
             buffer[1] = 'u' as u8;
             buffer[2] = '0' as u8;
             buffer[3] = '0' as u8;
-            buffer[4] = ('0' as u8) + (b0 as u8 >> 4);
-            buffer[5] = ('0' as u8) + (b0 as u8 & 0xfu8);
+            buffer[4] = HEX_DIGITS[(b0 as usize) >> 4];
+            buffer[5] = HEX_DIGITS[(b0 as usize) & 0xf];
             writer.write(&buffer[..6])?
         }
         b1 if 0x7f >= value as u32 => {
@@ -63,7 +64,7 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
             buffer[0] = (b2 as u32 >> 6) as u8 & 0x1fu8 | 0xc0u8;
             writer.write(&buffer[..2])?
         }
-        b3 if value as u32 >= 0x800 && value as u32 <= 0x7fff => {
+        b3 if value as u32 >= 0x800 && value as u32 <= 0xffff => {
             buffer[2] = (b3 as u8) & 0x3fu8 | 0x80u8;
             buffer[1] = (b3 as u32 >> 6) as u8 & 0x3fu8 | 0x80u8;
             buffer[0] = (b3 as u32 >> 12) as u8 & 0x0fu8 | 0xe0u8;
-- 
2.43.0


From f998c2b4f016b0ae4db7bbdd05c5db0d33ad3bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:53 +0000
Subject: [PATCH 02/42] fix: write characters with write_all so that short
 writes lose nothing

---
 src/core/json/encoder.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index 73d08d0..eb3c177 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -38,14 +38,14 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
     // Special values that need to be escaped
     // encode unicode sequence based on value range
     match value {
-        '\\' => writer.write("\\\\".as_bytes())?,
-        '/' => writer.write("\\/".as_bytes())?,
-        '\"' => writer.write("\\\"".as_bytes())?,
-        '\u{8}' => writer.write("\\b".as_bytes())?,
-        '\u{c}' => writer.write("\\f".as_bytes())?,
-        '\n' => writer.write("\\n".as_bytes())?,
-        '\r' => writer.write("\\r".as_bytes())?,
-        '\t' => writer.write("\\t".as_bytes())?,
+        '\\' => writer.write_all("\\\\".as_bytes())?,
+        '/' => writer.write_all("\\/".as_bytes())?,
+        '\"' => writer.write_all("\\\"".as_bytes())?,
+        '\u{8}' => writer.write_all("\\b".as_bytes())?,
+        '\u{c}' => writer.write_all("\\f".as_bytes())?,
+        '\n' => writer.write_all("\\n".as_bytes())?,
+        '\r' => writer.write_all("\\r".as_bytes())?,
+        '\t' => writer.write_all("\\t".as_bytes())?,
         b0 if 0x1f >= value as u32 => {
             buffer[0] = '\\' as u8;
             buffer[1] = 'u' as u8;
@@ -53,29 +53,29 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
             buffer[3] = '0' as u8;
             buffer[4] = HEX_DIGITS[(b0 as usize) >> 4];
             buffer[5] = HEX_DIGITS[(b0 as usize) & 0xf];
-            writer.write(&buffer[..6])?
+            writer.write_all(&buffer[..6])?
         }
         b1 if 0x7f >= value as u32 => {
             buffer[0] = b1 as u8;
-            writer.write(&buffer[..1])?
+            writer.write_all(&buffer[..1])?
         }
         b2 if value as u32 >= 0x80 && value as u32 <= 0x7ff => {
             buffer[1] = (b2 as u8) & 0x3fu8 | 0x80u8;
             buffer[0] = (b2 as u32 >> 6) as u8 & 0x1fu8 | 0xc0u8;
-            writer.write(&buffer[..2])?
+            writer.write_all(&buffer[..2])?
         }
         b3 if value as u32 >= 0x800 && value as u32 <= 0xffff => {
             buffer[2] = (b3 as u8) & 0x3fu8 | 0x80u8;
             buffer[1] = (b3 as u32 >> 6) as u8 & 0x3fu8 | 0x80u8;
             buffer[0] = (b3 as u32 >> 12) as u8 & 0x0fu8 | 0xe0u8;
-            writer.write(&buffer[..3])?
+            writer.write_all(&buffer[..3])?
         }
         b4 => {
             buffer[3] = (b4 as u8) & 0x3fu8 | 0x80u8;
             buffer[2] = (b4 as u32 >> 6) as u8 & 0x3fu8 | 0x80u8;
             buffer[1] = (b4 as u32 >> 12) as u8 & 0x3fu8 | 0x80u8;
             buffer[0] = (b4 as u32 >> 18) as u8 & 0x07u8 | 0xf0u8;
-            writer.write(&buffer[..4])?
+            writer.write_all(&buffer[..4])?
         }
     };
     Ok(())
-- 
2.43.0


From a70d6e8afd27c3c42acf720782688513c3ec7bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:36 +0000
Subject: [PATCH 03/42] fix: write non-finite floating point numbers as JSON
 strings

---
 src/core/json/encoder.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index eb3c177..5b3eb34 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -234,10 +234,28 @@ macro_rules! encoder_emit_primitive {
     };
 }
 
+// JSON has no notation for NaN and the infinities; they are written as strings, which the decoder
+// accepts for any numeric type.
+macro_rules! encoder_emit_float {
+    ($get_primitive:ident, $typ:ident) => {
+        impl JsonEmitter for EmitNumber<$typ> {
+            fn emit(&self, writer: &mut dyn io::Write, source: &dyn DataSource) -> io::Result<()> {
+                let value = source.$get_primitive(&self.path);
+                if value.is_finite() {
+                    write!(writer, "{}", value)?;
+                } else {
+                    write!(writer, "\"{}\"", value)?;
+                }
+                Ok(())
+            }
+        }
+    };
+}
+
 encoder_emit_primitive!(get_bool, bool);
 encoder_emit_primitive!(get_char, char);
-encoder_emit_primitive!(get_f32, f32);
-encoder_emit_primitive!(get_f64, f64);
+encoder_emit_float!(get_f32, f32);
+encoder_emit_float!(get_f64, f64);
 encoder_emit_primitive!(get_u8, u8);
 encoder_emit_primitive!(get_u16, u16);
 encoder_emit_primitive!(get_u32, u32);
-- 
2.43.0


From f9843ea9e64dbf32e62f4b23eccbfe30466a1e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:09 +0000
Subject: [PATCH 04/42] fix: reject malformed \u escapes and decode surrogate
 pairs instead of panicking

---
 src/core/json/tokenizer.rs | 66 +++++++++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 19 deletions(-)

diff --git a/src/core/json/tokenizer.rs b/src/core/json/tokenizer.rs
index 42bbf1f..2702273 100644
--- a/src/core/json/tokenizer.rs
+++ b/src/core/json/tokenizer.rs
@@ -223,6 +223,30 @@ impl<'a> Tokenizer<'a> {
         self.advance();
     }
 
+    fn unicode_escape(&mut self) -> Result<u32, TokenizerError> {
+        // eat 'u'
+        self.advance();
+
+        let mut char_code = 0u32;
+
+        // need four hexadecimal digits
+        for _ in 0..4 {
+            match self.look_ahead.and_then(|(_, ch)| ch.to_digit(16)) {
+                Some(digit) => {
+                    char_code = char_code * 16 + digit;
+                    self.advance();
+                }
+                None => {
+                    return Err(String::from(
+                        "Invalid Unicode escape sequence in string value",
+                    ))
+                }
+            }
+        }
+
+        Ok(char_code)
+    }
+
     fn string_control_char(&mut self) -> Result<(), TokenizerError> {
         // eat '\\'
         self.advance();
@@ -237,30 +261,34 @@ impl<'a> Tokenizer<'a> {
             Some((_, 'r')) => Ok(self.push_string_char('\r')),
             Some((_, 't')) => Ok(self.push_string_char('\t')),
             Some((_, 'u')) => {
-                self.advance();
-
-                let mut char_code = 0u32;
+                let mut char_code = self.unicode_escape()?;
 
-                // need for hexadecimal digits
-                for _ in 0..4 {
+                // Characters outside of the basic multilingual plane are encoded as surrogate pair
+                if char_code >= 0xd800 && char_code <= 0xdbff {
                     match self.look_ahead {
-                        Some((_, ch)) => {
-                            if let Some(digit) = ch.to_digit(16) {
-                                char_code = char_code * 16 + digit;
-                                self.advance();
-                            }
-                        }
-                        _ => {
-                            return Err(String::from(
-                                "Invalid Unicode escape sequence in string value",
-                            ))
-                        }
+                        Some((_, '\\')) => self.advance(),
+                        _ => return Err(String::from("Unpaired surrogate in string value")),
+                    }
+
+                    let low = match self.look_ahead {
+                        Some((_, 'u')) => self.unicode_escape()?,
+                        _ => return Err(String::from("Unpaired surrogate in string value")),
+                    };
+
+                    if low < 0xdc00 || low > 0xdfff {
+                        return Err(String::from("Unpaired surrogate in string value"));
                     }
+
+                    char_code = 0x10000 + (char_code - 0xd800) * 0x400 + (low - 0xdc00);
                 }
 
-                // 16 bit should be the safe range for Unicode characters
-                self.string_buffer.push(char::from_u32(char_code).unwrap());
-                Ok(())
+                match char::from_u32(char_code) {
+                    Some(ch) => {
+                        self.string_buffer.push(ch);
+                        Ok(())
+                    }
+                    None => Err(String::from("Unpaired surrogate in string value")),
+                }
             }
             _ => Err(String::from("Invalid escape sequence in string value")),
         }
-- 
2.43.0


From 86d47ccabf1d5ab90ff11a77727332afc95fe7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:10 +0000
Subject: [PATCH 05/42] fix: require a digit after the decimal point of a
 number

---
 src/core/json/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/json/tokenizer.rs b/src/core/json/tokenizer.rs
index 2702273..d5fcb1b 100644
--- a/src/core/json/tokenizer.rs
+++ b/src/core/json/tokenizer.rs
@@ -355,7 +355,11 @@ impl<'a> Tokenizer<'a> {
         // check for fractional part
         if let Some((_, '.')) = self.look_ahead {
             self.advance();
-            self.digits();
+
+            match self.look_ahead {
+                Some((_, ch)) if ch.is_digit(10) => self.digits(),
+                _ => return Err(String::from("Invalid fraction format for number")),
+            }
         }
 
         // check for exponent part
-- 
2.43.0


From 6f69687b64d155bab5c7f5a092fa39669ac69b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:12 +0000
Subject: [PATCH 06/42] fix: only the four JSON whitespace characters separate
 tokens

---
 src/core/json/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/json/tokenizer.rs b/src/core/json/tokenizer.rs
index d5fcb1b..863216d 100644
--- a/src/core/json/tokenizer.rs
+++ b/src/core/json/tokenizer.rs
@@ -176,7 +176,7 @@ impl<'a> Tokenizer<'a> {
 
     fn skip_whitespace(&mut self) {
         while let Some((_, ch)) = self.look_ahead {
-            if !ch.is_whitespace() {
+            if !(ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r') {
                 break;
             }
 
-- 
2.43.0


From 3904a14b5f2e4dae771b3014dca98c360f302bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:49 +0000
Subject: [PATCH 07/42] fix: decode structs with 64 and more fields

---
 src/core/json/decoder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core/json/decoder.rs b/src/core/json/decoder.rs
index 2fb4f76..5244403 100644
--- a/src/core/json/decoder.rs
+++ b/src/core/json/decoder.rs
@@ -61,22 +61,22 @@ trait BitSet {
     fn is_empty(&self) -> bool;
 }
 
-impl BitSet for u64 {
+// A struct may have any number of fields, so a single machine word is not enough
+impl BitSet for Vec<bool> {
     fn new_with_elements(n: usize) -> Self {
-        assert!(n <= 64);
-        (1u64 << n) - 1
+        vec![true; n]
     }
 
     fn clear_element(&mut self, index: usize) {
-        *self = *self & !(1u64 << index)
+        self[index] = false
     }
 
     fn has_element(&self, index: usize) -> bool {
-        (*self & (1u64 << index)) != 0
+        self[index]
     }
 
     fn is_empty(&self) -> bool {
-        *self == 0
+        !self.contains(&true)
     }
 }
 
@@ -487,7 +487,7 @@ fn parser_for_type(prefix: Path, typ: &types::Type) -> Box<dyn JsonParser> {
                     parser_for_type(component_path, &field.typ)
                 })
                 .collect();
-            let struct_parser: StructParser<u64> = StructParser {
+            let struct_parser: StructParser<Vec<bool>> = StructParser {
                 indices,
                 fields,
                 _marker: marker::PhantomData,
-- 
2.43.0


From 1b496d1ac40dd59809a057ba1fa717bd5a01dbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:32 +0000
Subject: [PATCH 08/42] fix: clear the decoding result before the input is
 tokenized

---
 src/core/json/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/json/decoder.rs b/src/core/json/decoder.rs
index 5244403..4baa4ee 100644
--- a/src/core/json/decoder.rs
+++ b/src/core/json/decoder.rs
@@ -531,8 +531,8 @@ impl JsonDecoder {
         input: &str,
         result: &mut IntermediateDataSource,
     ) -> Result<(), String> {
-        let mut tokenizer = tokenizer::Tokenizer::new(input)?;
         result.clear();
+        let mut tokenizer = tokenizer::Tokenizer::new(input)?;
         self.parser.parse(&mut tokenizer, result)
     }
 }
-- 
2.43.0


From c0b2d7e05a23289e9f030eaa182f704f1ffd5ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:32 +0000
Subject: [PATCH 09/42] fix: reject input after the end of a JSON value

---
 src/core/json/decoder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/json/decoder.rs b/src/core/json/decoder.rs
index 4baa4ee..a2a868d 100644
--- a/src/core/json/decoder.rs
+++ b/src/core/json/decoder.rs
@@ -533,7 +533,13 @@ impl JsonDecoder {
     ) -> Result<(), String> {
         result.clear();
         let mut tokenizer = tokenizer::Tokenizer::new(input)?;
-        self.parser.parse(&mut tokenizer, result)
+        self.parser.parse(&mut tokenizer, result)?;
+
+        if tokenizer.token != tokenizer::Token::Eof {
+            return Err(String::from("Unexpected input after the end of the value"));
+        }
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From 482b14542c365fbb14d4e11e52b4456ef4cd48d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 10/42] fix: compare the lengths of both paths in
 is_proper_prefix_of

---
 src/core/types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/types/mod.rs b/src/core/types/mod.rs
index e872c1a..b430081 100644
--- a/src/core/types/mod.rs
+++ b/src/core/types/mod.rs
@@ -189,7 +189,7 @@ impl Path {
     }
 
     pub fn is_proper_prefix_of(&self, other: &Path) -> bool {
-        if self.0.len() == self.0.len() {
+        if self.0.len() == other.0.len() {
             return false;
         } else {
             self.is_prefix_of(other)
-- 
2.43.0


From de95424365c1c7acbbcaed733cd7bfc883a44a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 11/42] fix: display util::Error values and report their cause
 instead of panicking

---
 src/core/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/util.rs b/src/core/util.rs
index ed0737b..0f214ff 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -61,18 +61,18 @@ impl convert::From<io::Error> for Error {
 }
 
 impl fmt::Display for Error {
-    fn fmt(&self, _f: &mut fmt::Formatter) -> fmt::Result {
-        unimplemented!()
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        write!(f, "{}", self.message)
     }
 }
 
 impl error::Error for Error {
     fn description(&self) -> &str {
-        unimplemented!()
+        &self.message
     }
 
     fn cause(&self) -> Option<&dyn error::Error> {
-        unimplemented!()
+        self.cause.as_ref().map(|err| err.as_ref())
     }
 }
 
-- 
2.43.0


From 2d7b83db22d2f27e7e83a1b574496f9060af640e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 12/42] fix: let the router identify itself as the router

---
 src/bin/router.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/router.rs b/src/bin/router.rs
index 2ce5083..7b9c935 100644
--- a/src/bin/router.rs
+++ b/src/bin/router.rs
@@ -32,10 +32,10 @@ extern crate clap;
 use clap::{App};
 
 fn main() {
-    let _matches = App::new("Storage")
+    let _matches = App::new("Router")
         .version(cathlamet::VERSION)
         .author(cathlamet::AUTHOR)
         .about(cathlamet::DESCRIPTION)
         .get_matches();
-    println!("Cathlamet Storage Node");
+    println!("Cathlamet Router Node");
 }
\ No newline at end of file
-- 
2.43.0


From b9d72c2d29866f1afd35cbed47d633843bdfabb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 13/42] fix: a null test is a logical value that is never null

---
 src/sql/ast/typing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 024684f..376f2d0 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -287,7 +287,10 @@ impl Expression {
                         }
                     }
                     &UnaryOperator::IsNull => match expr_type {
-                        ScalarType::Scalar { typ: _, is_null: _ } => Ok(expr_type.clone()),
+                        ScalarType::Scalar { typ: _, is_null: _ } => Ok(ScalarType::Scalar {
+                            typ: types::DataType::Logical,
+                            is_null: false,
+                        }),
                         _ => Err(Error::from(
                             "Null test operation can only be applied to scalar type",
                         )),
-- 
2.43.0


From c8c4b50043d9c55440a368aaaa28df2fc1432611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 14/42] fix: comparing tuples may yield null when any component
 may be null

---
 src/sql/ast/typing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 376f2d0..a9aeb44 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -67,7 +67,7 @@ impl ScalarType {
                         } else if item_result.is_err() {
                             item_result
                         } else {
-                            Ok(result.unwrap() & item_result.unwrap())
+                            Ok(result.unwrap() | item_result.unwrap())
                         }
                     })
             }
-- 
2.43.0


From e59b9a73e8fff66e21887e4921a36a44bc67a3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 15/42] fix: an ill-typed guard of a CASE expression is an
 error

---
 src/sql/ast/typing.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index a9aeb44..0cd4333 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -495,7 +495,7 @@ impl Expression {
                 ref else_part,
             } => {
                 // All when part clauses must have a guard that evaluates to a logical value
-                let _ = fold_err((), when_part.iter(), |_, ref clause| {
+                fold_err((), when_part.iter(), |_, ref clause| {
                     let guard_type = clause.guard.infer_type(&context)?;
 
                     match guard_type {
@@ -505,7 +505,7 @@ impl Expression {
                         } => Ok(()),
                         _ => Err(Error::from("Case guard must evaluate to a logical type")),
                     }
-                });
+                })?;
 
                 // All when part clauses must have a body that evaluates to the same type
                 assert!(when_part.len() >= 1);
@@ -559,17 +559,11 @@ impl Expression {
                 let expr_type = expr.infer_type(&context)?;
 
                 // All when part clauses must have a guard that evaluates to the same type as expr
-                let _ = fold_err((), when_part.iter(), |_, ref clause| {
+                fold_err((), when_part.iter(), |_, ref clause| {
                     let guard_type = clause.guard.infer_type(&context)?;
-
-                    if guard_type.is_compatible(&expr_type)? {
-                        Ok(())
-                    } else {
-                        Err(Error::from(
-                            "Guard expression is incompatible with CASE expression",
-                        ))
-                    }
-                });
+                    guard_type.is_compatible(&expr_type)?;
+                    Ok(())
+                })?;
 
                 // All when part clauses must have a body that evalujates to the same type
                 assert!(when_part.len() >= 1);
-- 
2.43.0


From 43535135f4d2eef5889e0edddba511ef257f9527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 16/42] fix: a tuple as the result of a CASE expression is an
 error, not a panic

---
 src/sql/ast/typing.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 0cd4333..c1cec50 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -545,7 +545,9 @@ impl Expression {
                             is_null: is_null1 | is_null,
                         })
                     }
-                    _ => panic!("Should have covered all cases"),
+                    _ => Err(Error::from(
+                        "THEN clause must evaluate to scalar expression",
+                    )),
                 }
             }
 
@@ -603,7 +605,9 @@ impl Expression {
                             is_null: is_null1 | is_null,
                         })
                     }
-                    _ => panic!("Should have covered all cases"),
+                    _ => Err(Error::from(
+                        "THEN clause must evaluate to scalar expression",
+                    )),
                 }
             }
 
-- 
2.43.0


From 12c4565cb14e213e4cb9e9577c3426af11b130fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 17/42] fix: IN accepts operands of the same type whether or
 not they may be null

---
 src/sql/ast/typing.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index c1cec50..23ff59d 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -622,17 +622,15 @@ impl Expression {
                     ));
                 }
 
-                if expr_type.is_compatible(&ScalarType::Scalar {
+                let is_null = expr_type.is_compatible(&ScalarType::Scalar {
                     typ: set_type.attributes[0].typ,
                     is_null: set_type.attributes[0].is_null,
-                })? {
-                    Ok(ScalarType::Scalar {
-                        typ: types::DataType::Logical,
-                        is_null: false,
-                    })
-                } else {
-                    Err(Error::from("Incompatible types for IN expression"))
-                }
+                })?;
+
+                Ok(ScalarType::Scalar {
+                    typ: types::DataType::Logical,
+                    is_null,
+                })
             }
 
             // nested select statement
-- 
2.43.0


From 1e388d11537f2dd63c5e2f706f134697c8e5793f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 18/42] fix: IN with an empty list does not panic

---
 src/sql/ast/typing.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 23ff59d..f01c3ff 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -611,6 +611,18 @@ impl Expression {
                 }
             }
 
+            // Set membership test for an empty list; the result does not depend on any type
+            &Expression::In {
+                ref expr,
+                set: SetSpecification::List(ref values),
+            } if values.is_empty() => {
+                expr.infer_type(context)?;
+                Ok(ScalarType::Scalar {
+                    typ: types::DataType::Logical,
+                    is_null: false,
+                })
+            }
+
             // Set membership test; set should evaluate to a row set with a single column
             &Expression::In { ref expr, ref set } => {
                 let expr_type = expr.infer_type(context)?;
-- 
2.43.0


From 33223e9363368620aca1dc7aca6e246c05449734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:04 +0000
Subject: [PATCH 19/42] fix: rows of a VALUES clause must have the same number
 of values

---
 src/sql/ast/typing.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index f01c3ff..e5b4504 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -958,6 +958,12 @@ impl SetExpression {
                 // Validate other rows and unify into the result type
                 let component_types =
                     fold_err(component_types, (&rows[1..]).iter(), |types, vals| {
+                        if vals.len() != types.len() {
+                            return Err(Error::from(
+                                "All rows of a VALUES clause need to have the same number of values",
+                            ));
+                        }
+
                         fold_err(
                             Vec::new(),
                             types.iter().zip(vals.iter()),
-- 
2.43.0


From 1037eeee39aa14eda6563181a22816c6fde4bcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:06 +0000
Subject: [PATCH 20/42] fix: operands of a set operation must have the same
 number of columns

---
 src/sql/ast/typing.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index e5b4504..614f697 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1070,6 +1070,12 @@ impl SetExpression {
                 let left_type = left.infer_type(context)?;
                 let right_type = right.infer_type(context)?;
 
+                if left_type.attributes.len() != right_type.attributes.len() {
+                    return Err(Error::from(
+                        "Operands of a set operation need to have the same number of columns",
+                    ));
+                }
+
                 // unify columns by position
                 let attributes = fold_err(
                     Vec::new(),
-- 
2.43.0


From 8473769544af2af16bb3def25a5e0c47fcdd95ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:07 +0000
Subject: [PATCH 21/42] fix: check the constraint of a join

---
 src/sql/ast/typing.rs | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 614f697..1c3967d 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1258,11 +1258,45 @@ impl TableExpression {
                 ref left,
                 ref right,
                 op: _,
-                constraint: _,
+                ref constraint,
             } => {
                 let (left_context, mut attributes) = left.infer_type(context)?;
                 let (result_context, mut right_attributes) = right.infer_type(left_context)?;
 
+                match constraint {
+                    &JoinConstraint::Expr(ref expr) => match expr.infer_type(&result_context)? {
+                        ScalarType::Scalar {
+                            typ: types::DataType::Logical,
+                            is_null: _,
+                        } => (),
+                        _ => {
+                            return Err(Error::from(
+                                "Join constraint must evaluate to a BOOLEAN predicate",
+                            ))
+                        }
+                    },
+                    &JoinConstraint::Columns(ref names) => for name in names {
+                        let left_column = attributes.iter().find(|column| column.name == *name);
+                        let right_column =
+                            right_attributes.iter().find(|column| column.name == *name);
+
+                        match (left_column, right_column) {
+                            (Some(left), Some(right)) => if left.typ != right.typ {
+                                return Err(Error::from(format!(
+                                    "Join column '{}' has incompatible types",
+                                    name
+                                )));
+                            },
+                            _ => {
+                                return Err(Error::from(format!(
+                                    "Join column '{}' not defined in both relations",
+                                    name
+                                )))
+                            }
+                        }
+                    },
+                }
+
                 attributes.append(&mut right_attributes);
                 Ok((result_context, attributes))
             }
-- 
2.43.0


From f56aa6cdb905d716d52e61c51ec52279882a6e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:09 +0000
Subject: [PATCH 22/42] fix: a missing default namespace is an error, not a
 panic

---
 src/sql/ast/typing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 1c3967d..7fd361c 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -878,7 +878,10 @@ impl SetContext {
 
                 // look for the table name within the default schema
                 match self.namespaces.0.get(&self.default_namespace) {
-                    None => panic!("Default namespace not present in database"),
+                    None => Err(Error::from(format!(
+                        "Namespace {} not present in database",
+                        self.default_namespace
+                    ))),
                     Some(ref namespace) => namespace.0.get(&qualified_name[0]).ok_or(Error::from(
                         format!("Table name {} not found in schema", qualified_name[0]),
                     )),
-- 
2.43.0


From 3d7cfbc021347e544ba37946bb10bdb7e5dab40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:11 +0000
Subject: [PATCH 23/42] fix: columns of a sub-select in a FROM clause are
 visible to the query

---
 src/sql/ast/typing.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 7fd361c..03a1bdf 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -148,13 +148,9 @@ impl<'a> ScalarContext<'a> {
         }
     }
 
-    fn add_relation(
-        &mut self,
-        name: symbols::Name,
-        attributes: Vec<Attribute>,
-    ) -> Result<(), Error> {
-        // add the individual attributes
-        for attribute in &attributes {
+    // add the individual attributes
+    fn add_attributes(&mut self, attributes: &[Attribute]) {
+        for attribute in attributes {
             match self.symbols.get(&attribute.name) {
                 None => mem::drop(self.symbols.insert(
                     attribute.name.clone(),
@@ -171,6 +167,14 @@ impl<'a> ScalarContext<'a> {
                 Some(&ScalarContextSymbol::Relation(_)) => (),
             }
         }
+    }
+
+    fn add_relation(
+        &mut self,
+        name: symbols::Name,
+        attributes: Vec<Attribute>,
+    ) -> Result<(), Error> {
+        self.add_attributes(&attributes);
 
         // add the relationship entry
         let map: collections::BTreeMap<symbols::Name, ScalarType> = attributes
@@ -1252,9 +1256,16 @@ impl TableExpression {
             }
             &TableExpression::Select {
                 ref select,
-                alias: _,
+                ref alias,
             } => {
                 let row_type = select.infer_type(&context.set_context)?;
+
+                // register the columns, and the alias if there is one, in the context
+                match alias {
+                    &Some(ref id) => context.add_relation(id.clone(), row_type.attributes.clone())?,
+                    &None => context.add_attributes(&row_type.attributes),
+                }
+
                 Ok((context, row_type.attributes))
             }
             &TableExpression::Join {
-- 
2.43.0


From c25a9807b021b23b7af4966dada5c4f6d1176d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:13 +0000
Subject: [PATCH 24/42] fix: common table expressions are visible to the query,
 result columns to its ordering

---
 src/sql/ast/typing.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 03a1bdf..0d5927d 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -797,7 +797,9 @@ where
     }
 }
 
+#[derive(Clone)]
 struct ObjectTypes(collections::BTreeMap<symbols::Name, RowType>);
+#[derive(Clone)]
 struct Namespaces(collections::BTreeMap<symbols::Name, ObjectTypes>);
 
 impl<T> From<T> for ObjectTypes
@@ -838,6 +840,7 @@ where
 
 /// A context of bindings used to evaluate a type; for set expressions, we are interested in bindings
 /// of identifiers for relations.
+#[derive(Clone)]
 pub struct SetContext {
     // need a reference to a database
     namespaces: Namespaces,
@@ -1405,16 +1408,32 @@ impl Statement {
 
 impl SelectStatement {
     fn infer_type(&self, context: &SetContext) -> Result<RowType, Error> {
-        let mut scalar_context = ScalarContext::new(context);
+        // common table expression; validate type of each expression and make it visible to the
+        // expressions that follow. A name may hide one of an enclosing statement.
+        let mut set_context = context.clone();
+        let mut names = collections::BTreeSet::new();
 
-        // common table expression; validate type of each expression and build up a ScalarConext
         for ref cte in &self.common {
-            let cte_type = cte.infer_type(context)?;
-            scalar_context.add_relation(cte.identifier.clone(), cte_type.attributes)?;
+            let cte_type = cte.infer_type(&set_context)?;
+
+            if !names.insert(cte.identifier.clone()) {
+                return Err(Error::from(format!(
+                    "Duplicate name '{}' for common table expression",
+                    cte.identifier
+                )));
+            }
+
+            set_context
+                .table_expression
+                .insert(cte.identifier.clone(), cte_type);
         }
 
         // set expression
-        let result_type = self.expr.infer_type(context)?;
+        let result_type = self.expr.infer_type(&set_context)?;
+
+        // the columns of the result are in scope for ordering
+        let mut scalar_context = ScalarContext::new(&set_context);
+        scalar_context.add_attributes(&result_type.attributes);
 
         // order by
         for ref iter in &self.order_by {
-- 
2.43.0


From 57115ce65766b820c8720b55c61f880397dd03a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 25/42] fix: generated column names do not clash with given
 ones

---
 src/sql/ast/typing.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 0d5927d..053ce91 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1128,11 +1128,13 @@ fn generate_column_name(
     generated_names: &mut collections::BTreeMap<symbols::Name, usize>,
 ) -> symbols::Name {
     if generated_names.contains_key(name) {
-        let result = {
+        let mut result = name.clone();
+
+        while generated_names.contains_key(&result) {
             let counter = generated_names.entry(name.clone()).or_insert(0usize);
             *counter += 1;
-            symbols::Name::from(format!("{}{}", name, *counter))
-        };
+            result = symbols::Name::from(format!("{}{}", name, *counter));
+        }
 
         generated_names.insert(result.clone(), 0usize);
         result
-- 
2.43.0


From a77467cc21bc81cddf9307bfc2a82647168c81ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 26/42] fix: all columns of a relation are reported in the
 order of its declaration

---
 src/sql/ast/typing.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 053ce91..6954135 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -127,7 +127,7 @@ enum ScalarContextSymbol {
     AttributeConflict,
 
     // a relation with its constituent attributes
-    Relation(collections::BTreeMap<symbols::Name, ScalarType>),
+    Relation(Vec<(symbols::Name, ScalarType)>),
 }
 
 /// A context of bindings used to evaluate a type; for scalars, we are interested in bindings for
@@ -177,7 +177,7 @@ impl<'a> ScalarContext<'a> {
         self.add_attributes(&attributes);
 
         // add the relationship entry
-        let map: collections::BTreeMap<symbols::Name, ScalarType> = attributes
+        let fields: Vec<(symbols::Name, ScalarType)> = attributes
             .into_iter()
             .map(|attribute| {
                 (
@@ -197,7 +197,7 @@ impl<'a> ScalarContext<'a> {
             _ => {
                 mem::drop(
                     self.symbols
-                        .insert(name, ScalarContextSymbol::Relation(map)),
+                        .insert(name, ScalarContextSymbol::Relation(fields)),
                 );
                 Ok(())
             }
@@ -223,8 +223,9 @@ impl<'a> ScalarContext<'a> {
             },
             2 => match self.symbols.get(&qualified_name[0]) {
                 Some(&ScalarContextSymbol::Relation(ref attributes)) => attributes
-                    .get(&qualified_name[1])
-                    .map(|t| t.clone())
+                    .iter()
+                    .find(|field| field.0 == qualified_name[1])
+                    .map(|field| field.1.clone())
                     .ok_or_else(|| {
                         Error::from(format!(
                             "Name '{}' does not refer to an attribute of relation '{}'",
@@ -1173,8 +1174,8 @@ impl ResultColumns {
                             return Err(Error::from(format!("Undefined collection named {}", name)))
                         }
                         Some(&ScalarContextSymbol::Relation(ref fields)) => {
-                            for (ref name, ref scalar) in fields {
-                                match *scalar {
+                            for &(ref name, ref scalar) in fields {
+                                match scalar {
                                     &ScalarType::Scalar {
                                         ref typ,
                                         ref is_null,
-- 
2.43.0


From d5d9379543820e19905c75f6bb671aa7255fc0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:17 +0000
Subject: [PATCH 27/42] fix: a selected column keeps its name

---
 src/sql/ast/typing.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 6954135..80289de 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1210,7 +1210,12 @@ impl ResultColumns {
                         }
                         ScalarType::Scalar { typ, is_null } => {
                             let name = match alias {
-                                &None => symbols::Name::from("col"),
+                                &None => match &**expr {
+                                    &Expression::QualifiedIdentifier(ref path) => {
+                                        path.last().unwrap().clone()
+                                    }
+                                    _ => symbols::Name::from("col"),
+                                },
                                 &Some(ref name) => name.clone(),
                             };
                             result_attributes.push(Attribute {
-- 
2.43.0


From 7704c748716d12bd9eccdf53f51958f02c237069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:19 +0000
Subject: [PATCH 28/42] fix: values of INSERT without a column list are
 assigned by position

---
 src/sql/ast/typing.rs | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 80289de..091f6f7 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1471,27 +1471,26 @@ impl InsertStatement {
 
         match &self.columns {
             &None => {
+                // values are provided for all columns, in the order of their declaration
+                if row_type.attributes.len() != values_type.attributes.len() {
+                    return Err(Error::from(
+                        "Length mismatch between the columns of the table and the values provided",
+                    ));
+                }
+
                 // iterate over the value attriute types, and verify that the
                 // associated type can be assigned to the corresponding column of the table row
-                for ref attribute in &values_type.attributes {
-                    match &row_type_map.get(&attribute.name) {
-                        &None => {
-                            return Err(Error::from(format!(
-                                "Column '{}' not defined in table '{:?}'",
-                                &attribute.name, &self.table_name
-                            )))
-                        }
-                        &Some(&(ref typ, ref is_null)) => {
-                            if *typ != attribute.typ || (!*is_null && attribute.is_null) {
-                                return Err(Error::from(format!(
-                                    "Cannot assign value '{}' to column '{}'",
-                                    attribute.name, attribute.name
-                                )));
-                            }
-                        }
+                for (attribute, column) in
+                    values_type.attributes.iter().zip(row_type.attributes.iter())
+                {
+                    if !attribute.is_assignable_to(column) {
+                        return Err(Error::from(format!(
+                            "Cannot assign value '{}' to column '{}'",
+                            attribute.name, column.name
+                        )));
                     }
 
-                    row_type_map.remove(&attribute.name);
+                    row_type_map.remove(&column.name);
                 }
             }
             &Some(ref columns) => {
-- 
2.43.0


From 73e3fa7c275a6d6fca4f12efd8002aa659d061c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 29/42] fix: values at any offset of a byte buffer can be read
 and written

---
 src/core/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/util.rs b/src/core/util.rs
index 0f214ff..2482d01 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -158,8 +158,8 @@ pub fn set_value<T: Copy>(buffer: &mut [u8], offset: usize, value: T) {
 
     unsafe {
         let pointer: *mut T =
-            mem::transmute(buffer[offset..].as_ptr());
-        *pointer = value
+            mem::transmute(buffer[offset..].as_mut_ptr());
+        pointer.write_unaligned(value)
     }
 }
 
@@ -169,6 +169,6 @@ pub fn get_value<T: Copy>(buffer: &[u8], offset: usize) -> T {
     unsafe {
         let pointer: *const T =
             mem::transmute(buffer[offset..].as_ptr());
-        *pointer
+        pointer.read_unaligned()
     }
 }
\ No newline at end of file
-- 
2.43.0


From a71cdd34f7a5b9224eb6d1fb52298df8c63a5395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:40 +0000
Subject: [PATCH 30/42] fix: fields of nested enum cases need not be aligned to
 their size

---
 src/core/marshaller.rs | 127 ++++++++++++++++++++++-------------------
 1 file changed, 68 insertions(+), 59 deletions(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index 50675d4..d9db72e 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -419,7 +419,7 @@ impl Layout {
                     let length = unsafe {
                         let pointer: *const LengthEncodingType =
                             mem::transmute(data[tag_field.offset..].as_ptr());
-                        *pointer
+                        pointer.read_unaligned()
                     };
 
                     // add to the offset
@@ -438,27 +438,27 @@ impl Layout {
                                     types::Primitive::U128 => unsafe {
                                         let pointer: *const u128 = 
                                                 mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
+                                        pointer.read_unaligned() as usize
                                     },
                                     types::Primitive::U64 => unsafe {
                                         let pointer: *const u64 = 
                                                 mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
+                                        pointer.read_unaligned() as usize
                                     },
                                     types::Primitive::U32 => unsafe {
                                         let pointer: *const u32 = 
                                                 mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
+                                        pointer.read_unaligned() as usize
                                     },
                                     types::Primitive::U16 => unsafe {
                                         let pointer: *const u16 = 
                                                 mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
+                                        pointer.read_unaligned() as usize
                                     },
                                     types::Primitive::U8 => unsafe {
                                         let pointer: *const u8 = 
                                                 mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
+                                        pointer.read_unaligned() as usize
                                     },
                                     _ => panic!("Unexpected primitive for storing bitfields"),
                                 };
@@ -533,8 +533,8 @@ impl Layout {
 
                     unsafe {
                         let pointer: *mut LengthEncodingType =
-                            mem::transmute(buffer[field.offset..].as_ptr());
-                        *pointer = length as LengthEncodingType;
+                            mem::transmute(buffer[field.offset..].as_mut_ptr());
+                        pointer.write_unaligned(length as LengthEncodingType);
                     }
                 }
                 FixedSizeFieldKind::Bitfield {
@@ -547,98 +547,107 @@ impl Layout {
                     match primitive {
                         types::Primitive::U8 => unsafe {
                             let mask = ((1u8 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u8 = mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u8) << bit_offset) & mask);
+                            let pointer: *mut u8 = mem::transmute(buffer[field.offset..].as_mut_ptr());
+                            pointer.write_unaligned(
+                                (pointer.read_unaligned() & !mask) | (((case_tag as u8) << bit_offset) & mask),
+                            );
                         },
                         types::Primitive::U16 => unsafe {
                             let mask = ((1u16 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u16 = mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u16) << bit_offset) & mask);
+                            let pointer: *mut u16 = mem::transmute(buffer[field.offset..].as_mut_ptr());
+                            pointer.write_unaligned(
+                                (pointer.read_unaligned() & !mask) | (((case_tag as u16) << bit_offset) & mask),
+                            );
                         },
                         types::Primitive::U32 => unsafe {
                             let mask = ((1u32 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u32 = mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u32) << bit_offset) & mask);
+                            let pointer: *mut u32 = mem::transmute(buffer[field.offset..].as_mut_ptr());
+                            pointer.write_unaligned(
+                                (pointer.read_unaligned() & !mask) | (((case_tag as u32) << bit_offset) & mask),
+                            );
                         },
                         types::Primitive::U64 => unsafe {
                             let mask = ((1u64 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u64 = mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u64) << bit_offset) & mask);
+                            let pointer: *mut u64 = mem::transmute(buffer[field.offset..].as_mut_ptr());
+                            pointer.write_unaligned(
+                                (pointer.read_unaligned() & !mask) | (((case_tag as u64) << bit_offset) & mask),
+                            );
                         },
                         types::Primitive::U128 => unsafe {
                             let mask = ((1u128 << num_bits) - 1) << bit_offset;
                             let pointer: *mut u128 =
-                                mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u128) << bit_offset) & mask);
+                                mem::transmute(buffer[field.offset..].as_mut_ptr());
+                            pointer.write_unaligned(
+                                (pointer.read_unaligned() & !mask) | (((case_tag as u128) << bit_offset) & mask),
+                            );
                         },
                         _ => panic!("Invalid bitfield primitive type"),
                     }
                 }
                 FixedSizeFieldKind::Primitve(primitive) => match primitive {
                     types::Primitive::Bool => unsafe {
-                        *mem::transmute::<*mut u8, *mut bool>(
+                        mem::transmute::<*mut u8, *mut bool>(
                             buffer[field.offset..].as_mut_ptr(),
-                        ) = source.get_bool(&field.path);
+                        )
+                        .write_unaligned(source.get_bool(&field.path));
                     },
                     types::Primitive::Char => unsafe {
-                        *mem::transmute::<*mut u8, *mut char>(
+                        mem::transmute::<*mut u8, *mut char>(
                             buffer[field.offset..].as_mut_ptr(),
-                        ) = source.get_char(&field.path);
+                        )
+                        .write_unaligned(source.get_char(&field.path));
                     },
                     types::Primitive::F32 => unsafe {
-                        *mem::transmute::<*mut u8, *mut f32>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_f32(&field.path);
+                        mem::transmute::<*mut u8, *mut f32>(buffer[field.offset..].as_mut_ptr())
+                        .write_unaligned(source.get_f32(&field.path));
                     },
                     types::Primitive::F64 => unsafe {
-                        *mem::transmute::<*mut u8, *mut f64>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_f64(&field.path);
+                        mem::transmute::<*mut u8, *mut f64>(buffer[field.offset..].as_mut_ptr())
+                        .write_unaligned(source.get_f64(&field.path));
                     },
                     types::Primitive::U8 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u8>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_u8(&field.path);
+                        mem::transmute::<*mut u8, *mut u8>(buffer[field.offset..].as_mut_ptr())
+                        .write_unaligned(source.get_u8(&field.path));
                     },
                     types::Primitive::U16 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u16>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_u16(&field.path);
+                        mem::transmute::<*mut u8, *mut u16>(buffer[field.offset..].as_mut_ptr())
+                        .write_unaligned(source.get_u16(&field.path));
                     },
                     types::Primitive::U32 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u32>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_u32(&field.path);
+                        mem::transmute::<*mut u8, *mut u32>(buffer[field.offset..].as_mut_ptr())
+                        .write_unaligned(source.get_u32(&field.path));
                     },
                     types::Primitive::U64 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u64>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_u64(&field.path);
+                        mem::transmute::<*mut u8, *mut u64>(buffer[field.offset..].as_mut_ptr())
+                        .write_unaligned(source.get_u64(&field.path));
                     },
                     types::Primitive::U128 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u128>(
+                        mem::transmute::<*mut u8, *mut u128>(
                             buffer[field.offset..].as_mut_ptr(),
-                        ) = source.get_u128(&field.path);
+                        )
+                        .write_unaligned(source.get_u128(&field.path));
                     },
                     types::Primitive::I8 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i8>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_i8(&field.path);
+                        mem::transmute::<*mut u8, *mut i8>(buffer[field.offset..].as_mut_ptr())
+                        .write_unaligned(source.get_i8(&field.path));
                     },
                     types::Primitive::I16 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i16>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_i16(&field.path);
+                        mem::transmute::<*mut u8, *mut i16>(buffer[field.offset..].as_mut_ptr())
+                        .write_unaligned(source.get_i16(&field.path));
                     },
                     types::Primitive::I32 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i32>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_i32(&field.path);
+                        mem::transmute::<*mut u8, *mut i32>(buffer[field.offset..].as_mut_ptr())
+                        .write_unaligned(source.get_i32(&field.path));
                     },
                     types::Primitive::I64 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i64>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_i64(&field.path);
+                        mem::transmute::<*mut u8, *mut i64>(buffer[field.offset..].as_mut_ptr())
+                        .write_unaligned(source.get_i64(&field.path));
                     },
                     types::Primitive::I128 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i128>(
+                        mem::transmute::<*mut u8, *mut i128>(
                             buffer[field.offset..].as_mut_ptr(),
-                        ) = source.get_i128(&field.path);
+                        )
+                        .write_unaligned(source.get_i128(&field.path));
                     },
                 },
                 _ => panic!("Invalid field type"),
@@ -721,7 +730,7 @@ impl Marshaller {
                     match field.kind {
                         FixedSizeFieldKind::Primitve(prim) if prim == primitive => unsafe {
                             let pointer: *const T = mem::transmute(data[field.offset..].as_ptr());
-                            return *pointer;
+                            return pointer.read_unaligned();
                         },
                         _ => panic!("Incorrect field type"),
                     }
@@ -766,7 +775,7 @@ impl Marshaller {
                         FixedSizeFieldKind::Length => unsafe {
                             let pointer: *const LengthEncodingType =
                                 mem::transmute(data[field.offset..].as_ptr());
-                            *pointer as usize
+                            pointer.read_unaligned() as usize
                         },
                         _ => panic!("Incorrect field type"),
                     };
@@ -826,27 +835,27 @@ impl Marshaller {
                                 types::Primitive::U128 => unsafe {
                                     let pointer: *const u128 =
                                         mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
+                                    pointer.read_unaligned() as usize
                                 },
                                 types::Primitive::U64 => unsafe {
                                     let pointer: *const u64 =
                                         mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
+                                    pointer.read_unaligned() as usize
                                 },
                                 types::Primitive::U32 => unsafe {
                                     let pointer: *const u32 =
                                         mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
+                                    pointer.read_unaligned() as usize
                                 },
                                 types::Primitive::U16 => unsafe {
                                     let pointer: *const u16 =
                                         mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
+                                    pointer.read_unaligned() as usize
                                 },
                                 types::Primitive::U8 => unsafe {
                                     let pointer: *const u8 =
                                         mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
+                                    pointer.read_unaligned() as usize
                                 },
                                 _ => panic!("Unexpected primitive for storing bitfields"),
                             };
@@ -895,7 +904,7 @@ impl Marshaller {
                         FixedSizeFieldKind::Length => unsafe {
                             let pointer: *const LengthEncodingType =
                                 mem::transmute(data[field.offset..].as_ptr());
-                            return *pointer as usize;
+                            return pointer.read_unaligned() as usize;
                         },
                         _ => panic!("Incorrect field type"),
                     }
-- 
2.43.0


From 68a318226e3aabdbc420975d7745f81bc8e8d21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 31/42] fix: case tags may fill the whole bitfield container

---
 src/core/marshaller.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index d9db72e..e1bcf87 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -546,31 +546,31 @@ impl Layout {
 
                     match primitive {
                         types::Primitive::U8 => unsafe {
-                            let mask = ((1u8 << num_bits) - 1) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) << bit_offset) as u8;
                             let pointer: *mut u8 = mem::transmute(buffer[field.offset..].as_mut_ptr());
                             pointer.write_unaligned(
-                                (pointer.read_unaligned() & !mask) | (((case_tag as u8) << bit_offset) & mask),
+                                (pointer.read_unaligned() & !mask) | ((((case_tag as u128) << bit_offset) as u8) & mask),
                             );
                         },
                         types::Primitive::U16 => unsafe {
-                            let mask = ((1u16 << num_bits) - 1) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) << bit_offset) as u16;
                             let pointer: *mut u16 = mem::transmute(buffer[field.offset..].as_mut_ptr());
                             pointer.write_unaligned(
-                                (pointer.read_unaligned() & !mask) | (((case_tag as u16) << bit_offset) & mask),
+                                (pointer.read_unaligned() & !mask) | ((((case_tag as u128) << bit_offset) as u16) & mask),
                             );
                         },
                         types::Primitive::U32 => unsafe {
-                            let mask = ((1u32 << num_bits) - 1) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) << bit_offset) as u32;
                             let pointer: *mut u32 = mem::transmute(buffer[field.offset..].as_mut_ptr());
                             pointer.write_unaligned(
-                                (pointer.read_unaligned() & !mask) | (((case_tag as u32) << bit_offset) & mask),
+                                (pointer.read_unaligned() & !mask) | ((((case_tag as u128) << bit_offset) as u32) & mask),
                             );
                         },
                         types::Primitive::U64 => unsafe {
-                            let mask = ((1u64 << num_bits) - 1) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) << bit_offset) as u64;
                             let pointer: *mut u64 = mem::transmute(buffer[field.offset..].as_mut_ptr());
                             pointer.write_unaligned(
-                                (pointer.read_unaligned() & !mask) | (((case_tag as u64) << bit_offset) & mask),
+                                (pointer.read_unaligned() & !mask) | ((((case_tag as u128) << bit_offset) as u64) & mask),
                             );
                         },
                         types::Primitive::U128 => unsafe {
-- 
2.43.0


From ca30a82d901b6a469cf22372f27608ae09c26687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:02 +0000
Subject: [PATCH 32/42] fix: encoding a string into a short buffer panics
 instead of writing past its end

---
 src/core/marshaller.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index e1bcf87..b9c56e7 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -682,7 +682,7 @@ where
     unsafe {
         let data: &[u8] = source.get_bytes(path);
         assert!(length == data.len());
-        let base: *mut u8 = mem::transmute(buffer.as_mut_ptr());
+        let base: *mut u8 = mem::transmute(buffer[..length].as_mut_ptr());
         let target = slice::from_raw_parts_mut(base, length);
         target.copy_from_slice(data);
     }
-- 
2.43.0


From 18211419ee21051fd6e783effdb23f8385324ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 33/42] fix: reading from truncated data panics instead of
 reading past its end

---
 src/core/marshaller.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index b9c56e7..18439be 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -408,6 +408,7 @@ impl Layout {
 
     fn variable_field_offset(&self, var_size_field_index: usize, data: &[u8]) -> usize {
         let mut offset = self.var_field_offset;
+        assert!(data.len() >= offset);
 
         for var_size_field in &self.var_size_fields[0..var_size_field_index] {
             // determine the size of the variable length field and add it to offset
@@ -720,6 +721,8 @@ impl Marshaller {
         let mut layout: &Layout = self.layout.as_ref();
 
         loop {
+            assert!(data.len() >= layout.var_field_offset);
+
             match layout
                 .field_indices
                 .binary_search_by(|probe| probe.path.cmp(path).reverse())
@@ -761,6 +764,8 @@ impl Marshaller {
         let mut layout: &Layout = self.layout.as_ref();
 
         loop {
+            assert!(data.len() >= layout.var_field_offset);
+
             match layout
                 .field_indices
                 .binary_search_by(|probe| probe.path.cmp(path).reverse())
@@ -784,7 +789,7 @@ impl Marshaller {
                     // of elements
                     match &layout.var_size_fields[var_size_field_index].kind {
                         VariableSizeFieldKind::String => unsafe {
-                            let base = data[offset..].as_ptr();
+                            let base = data[offset..offset + length].as_ptr();
                             return slice::from_raw_parts(mem::transmute(base), length);
                         },
                         _ => panic!("Incorrect field type"),
@@ -818,6 +823,8 @@ impl Marshaller {
         let mut layout: &Layout = self.layout.as_ref();
 
         loop {
+            assert!(data.len() >= layout.var_field_offset);
+
             match layout
                 .field_indices
                 .binary_search_by(|probe| probe.path.cmp(path).reverse())
@@ -893,6 +900,8 @@ impl Marshaller {
         let mut layout: &Layout = self.layout.as_ref();
 
         loop {
+            assert!(data.len() >= layout.var_field_offset);
+
             match layout
                 .field_indices
                 .binary_search_by(|probe| probe.path.cmp(path).reverse())
-- 
2.43.0


From 37274725ba1ac9cfedac6c6b3960003c830db8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 34/42] fix: an empty row does not fit on a page without room
 for its offset

---
 src/core/nsm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/nsm.rs b/src/core/nsm.rs
index 880fa3c..195e87d 100644
--- a/src/core/nsm.rs
+++ b/src/core/nsm.rs
@@ -82,6 +82,7 @@ impl PageFormat {
             page.len()
         };
 
+        assert!(mem::size_of::<Offset>() * (num_rows + 2) <= upper_bound);
         let row_offset = upper_bound - aligned_len;
         let padding = aligned_len - row.len();
         let index_value = (row_offset | padding) as Offset;
@@ -105,6 +106,7 @@ impl PageFormat {
             let delta = util::align(row.len(), self.row_alignment);
 
             let last_offset = self.aligned_row_offset(page, num_rows - 1);
+            assert!(mem::size_of::<Offset>() * (num_rows + 2) <= last_offset);
             let mut row_offset = if index > 0 {
                 self.aligned_row_offset(page, index - 1)
             } else {
-- 
2.43.0


From f8d6e1d50af6d064e43907e8ca1d3eeb89063bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:08 +0000
Subject: [PATCH 35/42] fix: moving the rows of a corrupted page panics instead
 of writing past its end

---
 src/core/nsm.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/core/nsm.rs b/src/core/nsm.rs
index 195e87d..d2f20e5 100644
--- a/src/core/nsm.rs
+++ b/src/core/nsm.rs
@@ -21,7 +21,6 @@
 // SOFTWARE.
 
 use std::mem;
-use std::ptr;
 
 use crate::core::util;
 
@@ -113,11 +112,7 @@ impl PageFormat {
                 page.len()
             };
 
-            unsafe {
-                let src: *const u8 = mem::transmute(page[last_offset..].as_ptr());
-                let dst: *mut u8 = mem::transmute(page[last_offset - delta..].as_ptr());
-                ptr::copy::<u8>(src, dst, row_offset - last_offset);
-            }
+            page.copy_within(last_offset..row_offset, last_offset - delta);
 
             for row_index in (index..num_rows).rev() {
                 let old_offset = self.get_row_offset(page, row_index) as usize;
@@ -159,11 +154,7 @@ impl PageFormat {
                 self.set_row_offset(page, row_index - 1, (old_offset + delta) as Offset);
             }
 
-            unsafe {
-                let src: *const u8 = mem::transmute(page[last_offset..].as_ptr());
-                let dst: *mut u8 = mem::transmute(page[last_offset + delta..].as_ptr());
-                ptr::copy::<u8>(src, dst, row_offset - last_offset);
-            }
+            page.copy_within(last_offset..row_offset, last_offset + delta);
         }
 
         self.set_num_rows(page, num_rows - 1);
-- 
2.43.0


From 49679dc4d2242c338a31182ae1a74b4758bfa106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 36/42] fix: the default block size of a volume is 4096 bytes,
 not 8192

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index cd8ef59..f9db0d4 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -200,7 +200,7 @@ pub struct VolumeParameters {
 
 impl VolumeParameters {
     pub fn new_with_defaults(volume_size: u64) -> VolumeParameters {
-        const LOG_BLOCK_SIZE: u64 = (32 - (DEFAULT_VOLUME_BLOCK_SIZE as u32).leading_zeros()) as u64;
+        const LOG_BLOCK_SIZE: u64 = (31 - (DEFAULT_VOLUME_BLOCK_SIZE as u32).leading_zeros()) as u64;
 
         let block_size = 1u64 << LOG_BLOCK_SIZE;
 
-- 
2.43.0


From 39e7161c08f32f44bcb4cc503bd81fc78f805a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 37/42] fix: running out of volume identifiers is an error, not
 a panic

---
 src/storage/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index f9db0d4..7b65cd3 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -380,13 +380,13 @@ impl VolumeManager {
     // generate an internal identifier for the volume to create or attach
     fn next_volume(&mut self) -> errors::Result<VolumeIndex> {
         let current = self.next_volume;
-        let next = current.0 + 1;
 
-        if next < current.0 {
-            Err("Cannot allocate more internal volume identifiers".into())
-        } else {
-            self.next_volume = VolumeIndex(next);
-            Ok(current)
+        match current.0.checked_add(1) {
+            None => Err("Cannot allocate more internal volume identifiers".into()),
+            Some(next) => {
+                self.next_volume = VolumeIndex(next);
+                Ok(current)
+            }
         }
     }
 
-- 
2.43.0


From aae23fb9a0813cb8d97ca9bc692357b6ff90f0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 38/42] fix: making a buffer pool panicked on the predecessor
 of its first buffer

---
 src/storage/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 7b65cd3..0a34546 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -812,12 +812,13 @@ impl BufferPool {
 
         // chain all buffers into a single list
         for index in 0 .. num_buffers {
-            buffers[index].link.prev = (index - 1) as BufferIndex;
+            if index > 0 {
+                buffers[index].link.prev = (index - 1) as BufferIndex;
+            }
             buffers[index].link.next = (index + 1) as BufferIndex;
         }
 
-        // ensure we fix up first and last elements
-        buffers[0].link.prev = NIL_BUFFER_INDEX;
+        // ensure we fix up the last element; the first one has no predecessor
         buffers[num_buffers - 1].link.next = NIL_BUFFER_INDEX;
 
         // create list header for this chain of buffers
-- 
2.43.0


From 6a24a5cb0584828014abf557ba303d6fbcf4bd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 39/42] fix: a buffer taken from the pool stayed in the list of
 available buffers

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 0a34546..eea8de3 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -943,7 +943,7 @@ impl BufferPool {
                         let buffers = &mut internal.buffers;
                         available_buffers.list_remove(buffers, index);
 
-                        let in_use_buffers = &mut internal.available_buffers;
+                        let in_use_buffers = &mut internal.in_use_buffers;
                         in_use_buffers.list_push_front(buffers, index);
 
                         internal.mapped_locations.insert(location, index as usize);
-- 
2.43.0


From a033f13e7094c8823007f6892f075b544e34144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:36 +0000
Subject: [PATCH 40/42] fix: a buffer given to another location kept its old
 mapping

---
 src/storage/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index eea8de3..9b5d0f3 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -946,7 +946,14 @@ impl BufferPool {
                         let in_use_buffers = &mut internal.in_use_buffers;
                         in_use_buffers.list_push_front(buffers, index);
 
+                        // the buffer no longer holds the contents of its previous location
+                        if buffers[index as usize].mapped {
+                            internal.mapped_locations.remove(&buffers[index as usize].location);
+                        }
+
                         internal.mapped_locations.insert(location, index as usize);
+                        buffers[index as usize].location = location;
+                        buffers[index as usize].mapped = true;
 
                         assert!(buffers[index as usize].access.is_none());
 
-- 
2.43.0


From 7293ef8895b8c9de7f757db841de8af0fb1353db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:44 +0000
Subject: [PATCH 41/42] fix: an access to a buffer still mapped left it
 available and read it again

---
 src/storage/mod.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 9b5d0f3..e98085a 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -990,12 +990,20 @@ impl BufferPool {
                                     lock,
                                     num_handles: 1
                                 });
-                            
-                            let init_lock = unsafe {
-                                (*lock_ptr).try_write().unwrap()
-                            };
 
-                            break (index, lock_ptr, Some(init_lock));
+                            // the buffer still holds the contents of the location, but it can't
+                            // be given to another location while it is in use
+                            let buffers = &mut internal.buffers;
+
+                            if buffers[index].dirty {
+                                internal.dirty_buffers.list_remove(buffers, index as BufferIndex);
+                            } else {
+                                internal.available_buffers.list_remove(buffers, index as BufferIndex);
+                            }
+
+                            internal.in_use_buffers.list_push_front(buffers, index as BufferIndex);
+
+                            break (index, lock_ptr, None);
                         },
                         &mut Some(ref mut access) => {
                             let lock_ptr = (&*access.lock) as *const async_std::sync::RwLock<()>;
-- 
2.43.0


From ac342f2abe852b90d782a77200fcf5ac77e48b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:27 +0000
Subject: [PATCH 42/42] fix: a lock given back to the buffer pool was still
 held by the released handle

---
 src/storage/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index e98085a..4e28874 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -1019,8 +1019,7 @@ impl BufferPool {
 
     // Return a read-only handle
     async fn release_read_only<'a>(&'a self, buffer_index: usize) {
-        // because the handle still holds the lock, we are still preventing exclusive
-        // write access to this buffer
+        // because the handle is still counted, the buffer can't be given to another location
 
         let internal = &mut *self.mapping.lock().await;
 
@@ -1079,8 +1078,7 @@ impl BufferPool {
 
     // Return a read-write handle
     async fn release_read_write<'a>(&'a self, buffer_index: usize) {
-        // because the handle still holds the lock, we still have exclusive access to
-        // this buffer
+        // because the handle is still counted, the buffer can't be given to another location
         let internal = &mut *self.mapping.lock().await;
 
         let BufferAccess { lock, num_handles: _ } = {
@@ -1244,8 +1242,9 @@ impl <'a> ReadOnlyBufferHandle<'a> {
             panic!("Buffer handle has been released already")
         }
 
-        self.pool.release_read_only(self.buffer_index).await;
+        // the pool may give the lock to another buffer at once, so it must not be held any longer
         self.guard.take();
+        self.pool.release_read_only(self.buffer_index).await;
     }
 }
 
@@ -1286,8 +1285,9 @@ impl <'a> ReadWriteBufferHandle<'a> {
             panic!("Buffer handle has been released already")
         }
 
-        self.pool.release_read_write(self.buffer_index).await;
+        // the pool may give the lock to another buffer at once, so it must not be held any longer
         self.guard.take();
+        self.pool.release_read_write(self.buffer_index).await;
     }
 }
 
-- 
2.43.0

