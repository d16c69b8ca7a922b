From 3367de9971069575d8b1a9eece10d433e37424a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:49 +0000
Subject: [PATCH 01/40] fix: advance past tokens that end inside a grapheme
 cluster

Input::update never moved when the requested number of bytes ended in the
middle of a grapheme cluster (e.g. a name followed by a combining
character), so the lexer read the same token forever.
---
 src/input.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/input.rs b/src/input.rs
index 02505c0..79f194e 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -91,6 +91,12 @@ impl<'b> Input<'b> {
             match graphemes.next() {
                 Some(text) => {
                     if (input.pos - start) + text.len() > num_bytes {
+                        // `num_bytes` ends inside of this grapheme (e.g. a
+                        // token directly followed by a combining character).
+                        if input.pos < start + num_bytes {
+                            input.pos = start + num_bytes;
+                            input.column += 1;
+                        }
                         break;
                     }
                     input.pos += text.len();
-- 
2.43.0


From 4092c532128b57cc4d22d3a1ee2247a514ffb74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:40 +0000
Subject: [PATCH 02/40] fix: non-ASCII text in C header comments

Skipping a /* */ comment sliced the text at arbitrary byte positions and
panicked inside a multi-byte character.
---
 src/cheader.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cheader.rs b/src/cheader.rs
index 84d2955..951912d 100644
--- a/src/cheader.rs
+++ b/src/cheader.rs
@@ -12,10 +12,11 @@ fn skip_multiline_comment<'a>(input: &Input<'a>) -> Input<'a> {
     let mut skipped = 0;
     if text.starts_with("/*") {
         skipped = skipped + 2;
-        while skipped < text.len() && !text[skipped..].starts_with("*/") {
+        let bytes = text.as_bytes();
+        while skipped < text.len() && !bytes[skipped..].starts_with(b"*/") {
             skipped = skipped + 1;
         }
-        if text[skipped..].starts_with("*/") {
+        if bytes[skipped..].starts_with(b"*/") {
             return input.update(skipped + 2);
         } else {
             return input.update(skipped);
-- 
2.43.0


From 15f6f2180d53960b23ee2a3713d98614c0489268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:45 +0000
Subject: [PATCH 03/40] fix: report number literals that don't fit in 32 bits

They made the lexer panic.
---
 src/lexer.rs | 58 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index ec9d8ab..72508d5 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -311,26 +311,36 @@ fn clean_str(string: &str) -> String {
 
 struct Matcher {
     regex: Regex,
-    convert: fn(&str) -> TokenType,
+    convert: Box<dyn Fn(&str) -> Option<TokenType> + Send + Sync>,
 }
 
 impl Matcher {
     pub fn new(re: &str, convert: fn(&str) -> TokenType) -> Matcher {
         Matcher {
             regex: Regex::new(("^".to_owned() + re).as_str()).unwrap(),
-            convert: convert,
+            convert: Box::new(move |text| Some(convert(text))),
         }
     }
 
-    pub fn do_match<'a>(&self, input: &Input<'a>) -> Option<(Input<'a>, Token)> {
+    /// A matcher for text that has the form of a token, but may still
+    /// not be a valid one (e.g. a number that's too big).
+    pub fn checked(re: &str, convert: fn(&str) -> Option<TokenType>) -> Matcher {
+        Matcher {
+            regex: Regex::new(("^".to_owned() + re).as_str()).unwrap(),
+            convert: Box::new(convert),
+        }
+    }
+
+    /// Returns `None` if the input doesn't match, and `Some(None)` if
+    /// it matches, but isn't a valid token.
+    pub fn do_match<'a>(&self, input: &Input<'a>) -> Option<Option<(Input<'a>, Token)>> {
         match self.regex.captures_iter(input.as_str()).next() {
             Some(cap) => {
                 let capture: &str = &cap[0];
                 let convert = &self.convert;
-                let token_type = convert(capture);
                 let new_input = input.update(capture.len());
                 let span = Span::new(input.location(), new_input.location());
-                Some((new_input, Token::new(token_type, span)))
+                Some(convert(capture).map(|token_type| (new_input, Token::new(token_type, span))))
             }
             None => None,
         }
@@ -398,24 +408,24 @@ fn skip_whitespace_and_comments<'a>(input: &Input<'a>) -> Input<'a> {
     current
 }
 
-fn to_hex_num(text: &str, prefix: usize) -> TokenType {
-    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 16).unwrap();
-    TokenType::Number(num, Radix::Hex)
+fn to_hex_num(text: &str, prefix: usize) -> Option<TokenType> {
+    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 16).ok()?;
+    Some(TokenType::Number(num, Radix::Hex))
 }
 
-fn to_oct_num(text: &str) -> TokenType {
-    let num = i32::from_str_radix(&(&text[2..]).replace('\'', ""), 8).unwrap();
-    TokenType::Number(num, Radix::Octal)
+fn to_oct_num(text: &str) -> Option<TokenType> {
+    let num = i32::from_str_radix(&(&text[2..]).replace('\'', ""), 8).ok()?;
+    Some(TokenType::Number(num, Radix::Octal))
 }
 
-fn to_bin_num(text: &str, prefix: usize) -> TokenType {
-    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 2).unwrap();
-    TokenType::Number(num, Radix::Binary)
+fn to_bin_num(text: &str, prefix: usize) -> Option<TokenType> {
+    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 2).ok()?;
+    Some(TokenType::Number(num, Radix::Binary))
 }
 
-fn to_dec_num(text: &str) -> TokenType {
-    let num = i32::from_str_radix(&text.replace('\'', ""), 10).unwrap();
-    TokenType::Number(num, Radix::Decimal)
+fn to_dec_num(text: &str) -> Option<TokenType> {
+    let num = i32::from_str_radix(&text.replace('\'', ""), 10).ok()?;
+    Some(TokenType::Number(num, Radix::Decimal))
 }
 
 fn read_token<'a>(
@@ -469,12 +479,12 @@ fn read_token<'a>(
                 }),
                 Matcher::new("@[rR][0123]", |text| to_indr_mode(text)),
                 Matcher::new(ident, |text| TokenType::Name(text.to_lowercase())),
-                Matcher::new(hex_num, |text| to_hex_num(text, 1)),
-                Matcher::new(oct_num, |text| to_oct_num(text)),
-                Matcher::new(hex_num2, |text| to_hex_num(text, 2)),
-                Matcher::new(bin_num, |text| to_bin_num(text, 1)),
-                Matcher::new(bin_num2, |text| to_bin_num(text, 2)),
-                Matcher::new(dec_num, |text| to_dec_num(text)),
+                Matcher::checked(hex_num, |text| to_hex_num(text, 1)),
+                Matcher::checked(oct_num, |text| to_oct_num(text)),
+                Matcher::checked(hex_num2, |text| to_hex_num(text, 2)),
+                Matcher::checked(bin_num, |text| to_bin_num(text, 1)),
+                Matcher::checked(bin_num2, |text| to_bin_num(text, 2)),
+                Matcher::checked(dec_num, |text| to_dec_num(text)),
             ]
         };
     }
@@ -486,7 +496,7 @@ fn read_token<'a>(
         for matcher in MATCHERS.iter() {
             match matcher.do_match(&input) {
                 None => (),
-                matched => return matched,
+                Some(matched) => return matched,
             }
         }
         None
-- 
2.43.0


From b132d2d491cad6a2754f5cb92a38a5391249b49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 04/40] fix: reporting an error in a one-byte source file

Finding the end of the line to show subtracted two from the length of the
file, which panicked for files of a single byte.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8bcc1c2..2c19a66 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1184,8 +1184,8 @@ fn end_of_line(pos: usize, text: &str) -> usize {
     let bytes = text.as_bytes();
     let mut loc = pos;
     while loc < bytes.len()
-        && !((loc < bytes.len() - 1 && bytes[loc] == b'\n')
-            || (loc < bytes.len() - 2 && bytes[loc] == b'\r' && bytes[loc + 1] == b'\n'))
+        && !(bytes[loc] == b'\n'
+            || (loc + 1 < bytes.len() && bytes[loc] == b'\r' && bytes[loc + 1] == b'\n'))
     {
         loc += 1;
     }
-- 
2.43.0


From c9561f2e4bae152254974555e4c8aa066230ba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:31 +0000
Subject: [PATCH 05/40] fix: location of unexpected characters

The diagnostic pointed at the end of the previous token, which can be
many lines above the offending character.
---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 72508d5..0db872e 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -517,7 +517,7 @@ pub fn lex_for_ws<'a>(
         cinput = input;
     }
     if current.is_none() {
-        Err(LexerError::UnexpectedChar(cinput.location()))
+        Err(LexerError::UnexpectedChar(skip_ws(&cinput).location()))
     } else {
         results.push(Token::new(
             TokenType::EOF,
-- 
2.43.0


From 12018018720a52c15c8eeb3029b325e8b49f2a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:02 +0000
Subject: [PATCH 06/40] fix: locate errors about statements that end too early

A line that ended before its statement was complete was reported as
"Unexpected EOF", without saying where, unless it was the last line of
the last file.
---
 src/parser.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4c106f7..9f1fd7a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -866,7 +866,22 @@ impl<'a> TokenStream<'a> {
     pub fn current(&self) -> Result<Token, ParseError> {
         match self.peek() {
             Some(tok) => Ok(tok.clone()),
-            None => Err(ParseError::UnexpectedEof),
+            None => Err(self.unexpected_end()),
+        }
+    }
+
+    /// The error for when more tokens were expected, located at the
+    /// end of the last token there is.
+    fn unexpected_end(&self) -> ParseError {
+        match self.tokens.last() {
+            Some(tok) => {
+                let end = tok.span().end().clone();
+                ParseError::UnexpectedToken(Token::new(
+                    TokenType::EOF,
+                    Span::new(end.clone(), end),
+                ))
+            }
+            None => ParseError::UnexpectedEof,
         }
     }
 
@@ -909,7 +924,7 @@ impl<'a> TokenStream<'a> {
                 token_type.name(),
                 tok.clone(),
             )),
-            None => Err(ParseError::UnexpectedEof),
+            None => Err(self.unexpected_end()),
         }
     }
 }
-- 
2.43.0


From 6ad98834f9cbab83b0aa2daf51dfb5b3c2c5f89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:01 +0000
Subject: [PATCH 07/40] fix: report arithmetic overflow in expressions

---
 src/asm.rs        |  2 ++
 src/expression.rs | 44 +++++++++++++++++++++++++++++++++++++++-----
 src/lib.rs        |  2 +-
 3 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index fec5de0..91bdf0a 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -388,6 +388,7 @@ impl std::convert::From<img::IconError> for AssemblyError {
 pub enum AssemblyError {
     NameNotFound(Span, String),
     DivideByZero(Span, String),
+    ArithmeticOverflow(Span, String),
     MustBeLiteralNumber(Span),
     NumberOfBytesIsLongerThanLength(Span, usize, usize), // length, number-of-bytes
     NameAlreadyExists(Span, Span, String),
@@ -552,6 +553,7 @@ impl From<EvaluationError> for AssemblyError {
             DivideByZero(span, message) => {
                 AssemblyError::DivideByZero(span.clone(), message.clone())
             }
+            ArithmeticOverflow(span, message) => AssemblyError::ArithmeticOverflow(span, message),
             MustBeLiteralNumber(span) => AssemblyError::MustBeLiteralNumber(span.clone()),
             MacroLabelOutsideOfMacro(span) => AssemblyError::MacroLabelOutsideOfMacro(span),
             MacroArgOutsideOfMacro(span) => AssemblyError::MacroArgOutsideOfMacro(span),
diff --git a/src/expression.rs b/src/expression.rs
index 75c106d..29a5fce 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -8,6 +8,7 @@ use std::fmt;
 pub enum EvaluationError {
     NameNotFound(Span, String),
     DivideByZero(Span, String),
+    ArithmeticOverflow(Span, String),
     MustBeLiteralNumber(Span),
     MacroLabelOutsideOfMacro(Span),
     MacroArgOutsideOfMacro(Span),
@@ -22,6 +23,7 @@ impl EvaluationError {
         match self {
             NameNotFound(span, msg) => format!("{}: {}", span, msg),
             DivideByZero(span, msg) => format!("{}: {}", span, msg),
+            ArithmeticOverflow(span, msg) => format!("{}: {}", span, msg),
             MustBeLiteralNumber(span) => format!("{}: Must be a literal integer", span),
             MacroLabelOutsideOfMacro(span) => format!("{}: Macro label ouside of macro", span),
             MacroArgOutsideOfMacro(span) => format!("{}: Macro arg outside of macro", span),
@@ -461,6 +463,13 @@ impl Expr {
         }
     }
 
+    fn overflow(&self, left: i32, op: &str, right: i32) -> EvaluationError {
+        EvaluationError::ArithmeticOverflow(
+            self.span(),
+            format!("Result doesn't fit in 32 bits: {} {} {}", left, op, right),
+        )
+    }
+
     pub fn eval<E: Env<i32>>(&self, name_lookup: &E) -> Result<i32, EvaluationError> {
         match self {
             Expr::BitwiseXor(_, left, right) => {
@@ -479,10 +488,33 @@ impl Expr {
                     format!("{} '{}' not found", name_lookup.name(), name),
                 )),
             },
-            Expr::Plus(_, left, right) => Ok(left.eval(name_lookup)? + right.eval(name_lookup)?),
-            Expr::Minus(_, left, right) => Ok(left.eval(name_lookup)? - right.eval(name_lookup)?),
-            Expr::UnaryMinus(_, expr) => Ok(-1 * expr.eval(name_lookup)?),
-            Expr::Times(_, left, right) => Ok(left.eval(name_lookup)? * right.eval(name_lookup)?),
+            Expr::Plus(_, left, right) => {
+                let left_val = left.eval(name_lookup)?;
+                let right_val = right.eval(name_lookup)?;
+                left_val
+                    .checked_add(right_val)
+                    .ok_or_else(|| self.overflow(left_val, "+", right_val))
+            }
+            Expr::Minus(_, left, right) => {
+                let left_val = left.eval(name_lookup)?;
+                let right_val = right.eval(name_lookup)?;
+                left_val
+                    .checked_sub(right_val)
+                    .ok_or_else(|| self.overflow(left_val, "-", right_val))
+            }
+            Expr::UnaryMinus(_, expr) => {
+                let value = expr.eval(name_lookup)?;
+                value
+                    .checked_neg()
+                    .ok_or_else(|| self.overflow(0, "-", value))
+            }
+            Expr::Times(_, left, right) => {
+                let left_val = left.eval(name_lookup)?;
+                let right_val = right.eval(name_lookup)?;
+                left_val
+                    .checked_mul(right_val)
+                    .ok_or_else(|| self.overflow(left_val, "*", right_val))
+            }
             Expr::Divide(_, left, right) => {
                 let left_val = left.eval(name_lookup)?;
                 let right_val = right.eval(name_lookup)?;
@@ -492,7 +524,9 @@ impl Expr {
                         format!("Divide by zero: {}/{}", left_val, right_val),
                     ))
                 } else {
-                    Ok(left_val / right_val)
+                    left_val
+                        .checked_div(right_val)
+                        .ok_or_else(|| self.overflow(left_val, "/", right_val))
                 }
             }
             Expr::Number(_, num, _radix) => Ok(*num),
diff --git a/src/lib.rs b/src/lib.rs
index 2c19a66..e94b6c0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -567,7 +567,7 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
             stderr.newline();
             highlight_line(&span, "Unknown name", files, stderr);
         }
-        DivideByZero(span, msg) => {
+        DivideByZero(span, msg) | ArithmeticOverflow(span, msg) => {
             stderr.writeln(msg);
             stderr.newline();
             highlight_line(&span, "", files, stderr);
-- 
2.43.0


From 5415345ae7901beca60b0463d657485db0a26307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:48 +0000
Subject: [PATCH 08/40] fix: limit the number of operators in an expression

Expressions are parsed, substituted, evaluated and dropped recursively, so
a long or deeply nested one overflowed the stack.
---
 src/asm.rs        |  3 ++
 src/expression.rs | 76 ++++++++++++++++++++++++++++++++++++-----------
 src/lib.rs        |  6 ++++
 src/parser.rs     | 22 ++++++++++++--
 4 files changed, 87 insertions(+), 20 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 91bdf0a..7284cf3 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -388,6 +388,7 @@ impl std::convert::From<img::IconError> for AssemblyError {
 pub enum AssemblyError {
     NameNotFound(Span, String),
     DivideByZero(Span, String),
+    ExpressionTooComplex(Span),
     ArithmeticOverflow(Span, String),
     MustBeLiteralNumber(Span),
     NumberOfBytesIsLongerThanLength(Span, usize, usize), // length, number-of-bytes
@@ -494,6 +495,7 @@ impl From<ParseError> for AssemblyError {
             InvalidInstruction(tok) => AssemblyError::InvalidInstruction(tok),
             ExpectedTokenNotFound(name, tok) => AssemblyError::ExpectedTokenNotFound(name, tok),
             InvalidExpression(loc) => AssemblyError::InvalidExpression(loc),
+            ExpressionTooComplex(span) => AssemblyError::ExpressionTooComplex(span),
             MissingBytes(span) => AssemblyError::MissingBytes(span),
             MissingWords(span) => AssemblyError::MissingWords(span),
             UnknownDirective(tok) => AssemblyError::UnknownDirective(tok),
@@ -554,6 +556,7 @@ impl From<EvaluationError> for AssemblyError {
                 AssemblyError::DivideByZero(span.clone(), message.clone())
             }
             ArithmeticOverflow(span, message) => AssemblyError::ArithmeticOverflow(span, message),
+            ExpressionTooComplex(span) => AssemblyError::ExpressionTooComplex(span),
             MustBeLiteralNumber(span) => AssemblyError::MustBeLiteralNumber(span.clone()),
             MacroLabelOutsideOfMacro(span) => AssemblyError::MacroLabelOutsideOfMacro(span),
             MacroArgOutsideOfMacro(span) => AssemblyError::MacroArgOutsideOfMacro(span),
diff --git a/src/expression.rs b/src/expression.rs
index 29a5fce..29f292e 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -8,6 +8,7 @@ use std::fmt;
 pub enum EvaluationError {
     NameNotFound(Span, String),
     DivideByZero(Span, String),
+    ExpressionTooComplex(Span),
     ArithmeticOverflow(Span, String),
     MustBeLiteralNumber(Span),
     MacroLabelOutsideOfMacro(Span),
@@ -24,6 +25,7 @@ impl EvaluationError {
             NameNotFound(span, msg) => format!("{}: {}", span, msg),
             DivideByZero(span, msg) => format!("{}: {}", span, msg),
             ArithmeticOverflow(span, msg) => format!("{}: {}", span, msg),
+            ExpressionTooComplex(span) => format!("{}: Expression is too complex", span),
             MustBeLiteralNumber(span) => format!("{}: Must be a literal integer", span),
             MacroLabelOutsideOfMacro(span) => format!("{}: Macro label ouside of macro", span),
             MacroArgOutsideOfMacro(span) => format!("{}: Macro arg outside of macro", span),
@@ -123,48 +125,62 @@ impl Expr {
         inv_span: Span,
         labels: &HashMap<String, String>,
         args: &HashMap<String, Arg>,
+    ) -> Result<Expr, EvaluationError> {
+        if self.operators(args) > MAX_OPERATORS {
+            return Err(EvaluationError::ExpressionTooComplex(
+                self.span().with_parent(inv_span),
+            ));
+        }
+        self.replace_args(inv_span, labels, args)
+    }
+
+    fn replace_args(
+        &self,
+        inv_span: Span,
+        labels: &HashMap<String, String>,
+        args: &HashMap<String, Arg>,
     ) -> Result<Expr, EvaluationError> {
         use crate::expression::Expr::*;
         match self {
             BitwiseXor(span, left, right) => Ok(Expr::BitwiseXor(
                 span.with_parent(inv_span.clone()),
-                Box::new(left.replace_macro_args(inv_span.clone(), labels, args)?),
-                Box::new(right.replace_macro_args(inv_span.clone(), labels, args)?),
+                Box::new(left.replace_args(inv_span.clone(), labels, args)?),
+                Box::new(right.replace_args(inv_span.clone(), labels, args)?),
             )),
             BitwiseAnd(span, left, right) => Ok(Expr::BitwiseAnd(
                 span.with_parent(inv_span.clone()),
-                Box::new(left.replace_macro_args(inv_span.clone(), labels, args)?),
-                Box::new(right.replace_macro_args(inv_span.clone(), labels, args)?),
+                Box::new(left.replace_args(inv_span.clone(), labels, args)?),
+                Box::new(right.replace_args(inv_span.clone(), labels, args)?),
             )),
             BitwiseOr(span, left, right) => Ok(Expr::BitwiseOr(
                 span.with_parent(inv_span.clone()),
-                Box::new(left.replace_macro_args(inv_span.clone(), labels, args)?),
-                Box::new(right.replace_macro_args(inv_span.clone(), labels, args)?),
+                Box::new(left.replace_args(inv_span.clone(), labels, args)?),
+                Box::new(right.replace_args(inv_span.clone(), labels, args)?),
             )),
             Name(span, name) => Ok(Expr::Name(span.with_parent(inv_span.clone()), name.clone())),
             Plus(span, left, right) => Ok(Expr::Plus(
                 span.with_parent(inv_span.clone()),
-                Box::new(left.replace_macro_args(inv_span.clone(), labels, args)?),
-                Box::new(right.replace_macro_args(inv_span.clone(), labels, args)?),
+                Box::new(left.replace_args(inv_span.clone(), labels, args)?),
+                Box::new(right.replace_args(inv_span.clone(), labels, args)?),
             )),
             Minus(span, left, right) => Ok(Expr::Minus(
                 span.with_parent(inv_span.clone()),
-                Box::new(left.replace_macro_args(inv_span.clone(), labels, args)?),
-                Box::new(right.replace_macro_args(inv_span.clone(), labels, args)?),
+                Box::new(left.replace_args(inv_span.clone(), labels, args)?),
+                Box::new(right.replace_args(inv_span.clone(), labels, args)?),
             )),
             UnaryMinus(span, expr) => Ok(Expr::UnaryMinus(
                 span.with_parent(inv_span.clone()),
-                Box::new(expr.replace_macro_args(inv_span.clone(), labels, args)?),
+                Box::new(expr.replace_args(inv_span.clone(), labels, args)?),
             )),
             Times(span, left, right) => Ok(Expr::Times(
                 span.with_parent(inv_span.clone()),
-                Box::new(left.replace_macro_args(inv_span.clone(), labels, args)?),
-                Box::new(right.replace_macro_args(inv_span.clone(), labels, args)?),
+                Box::new(left.replace_args(inv_span.clone(), labels, args)?),
+                Box::new(right.replace_args(inv_span.clone(), labels, args)?),
             )),
             Divide(span, left, right) => Ok(Expr::Divide(
                 span.with_parent(inv_span.clone()),
-                Box::new(left.replace_macro_args(inv_span.clone(), labels, args)?),
-                Box::new(right.replace_macro_args(inv_span.clone(), labels, args)?),
+                Box::new(left.replace_args(inv_span.clone(), labels, args)?),
+                Box::new(right.replace_args(inv_span.clone(), labels, args)?),
             )),
             Number(span, num, radix) => Ok(Expr::Number(
                 span.with_parent(inv_span.clone()).clone(),
@@ -173,11 +189,11 @@ impl Expr {
             )),
             UpperByte(span, expr) => Ok(Expr::UpperByte(
                 span.with_parent(inv_span.clone()),
-                Box::new(expr.replace_macro_args(inv_span.clone(), labels, args)?),
+                Box::new(expr.replace_args(inv_span.clone(), labels, args)?),
             )),
             LowerByte(span, expr) => Ok(Expr::LowerByte(
                 span.with_parent(inv_span.clone()),
-                Box::new(expr.replace_macro_args(inv_span.clone(), labels, args)?),
+                Box::new(expr.replace_args(inv_span.clone(), labels, args)?),
             )),
             MacroLabel(span, name) => match labels.get(name) {
                 Some(label) => Ok(Expr::Name(
@@ -194,7 +210,7 @@ impl Expr {
                             span.with_parent(expr.span()),
                         )),
                         Ex(expr) => Ok(expr
-                            .replace_macro_args(inv_span.clone(), labels, args)?
+                            .replace_args(inv_span.clone(), labels, args)?
                             .with_span(expr.span().with_parent(inv_span.clone()))),
                         IM(im_span, _) => Err(EvaluationError::IndirectionModeNotAllowedHere(
                             span.with_parent(im_span.clone()),
@@ -443,7 +459,31 @@ impl fmt::Display for Expr {
     }
 }
 
+// The most operators that an expression may contain
+pub const MAX_OPERATORS: usize = 250;
+
 impl Expr {
+    // Number of operators once macro args are replaced with args
+    pub fn operators(&self, args: &HashMap<String, Arg>) -> usize {
+        match self {
+            Expr::BitwiseXor(_, left, right)
+            | Expr::BitwiseAnd(_, left, right)
+            | Expr::BitwiseOr(_, left, right)
+            | Expr::Plus(_, left, right)
+            | Expr::Minus(_, left, right)
+            | Expr::Times(_, left, right)
+            | Expr::Divide(_, left, right) => 1 + left.operators(args) + right.operators(args),
+            Expr::UnaryMinus(_, expr) | Expr::UpperByte(_, expr) | Expr::LowerByte(_, expr) => {
+                1 + expr.operators(args)
+            }
+            Expr::MacroArg(_, name) => match args.get(name) {
+                Some(Arg::Imm(expr)) | Some(Arg::Ex(expr)) => expr.operators(&HashMap::new()),
+                _ => 0,
+            },
+            Expr::Name(_, _) | Expr::Number(_, _, _) | Expr::MacroLabel(_, _) => 0,
+        }
+    }
+
     pub fn complex(&self) -> bool {
         match self {
             Expr::BitwiseXor(_, _, _) => true,
diff --git a/src/lib.rs b/src/lib.rs
index e94b6c0..81768d4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -737,6 +737,12 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
             stderr.writeln("Invalid Expression").newline();
             highlight_line(&loc.to_span(), "", files, stderr);
         }
+        ExpressionTooComplex(span) => {
+            stderr
+                .writeln("Expression has too many operators")
+                .newline();
+            highlight_line(&span, "", files, stderr);
+        }
         MissingBytes(span) => {
             stderr
                 .writeln("The ")
diff --git a/src/parser.rs b/src/parser.rs
index 9f1fd7a..e6b63aa 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2,7 +2,7 @@ use crate::ast::{
     ArgType, ByteValue, Directive, IncludeHeader, IncludeType, MacroDefinition, MacroIdentifier,
     MacroStatement, SpriteType, Statement, Statements,
 };
-use crate::expression::{Arg, Expr, IndirectionMode, Radix};
+use crate::expression::{Arg, Expr, IndirectionMode, Radix, MAX_OPERATORS};
 use crate::instruction::Instr;
 use crate::lexer;
 use crate::lexer::{LexerError, Token, TokenType};
@@ -17,6 +17,7 @@ pub enum ParseError {
     InvalidInstruction(Token),
     ExpectedTokenNotFound(&'static str, Token),
     InvalidExpression(Location),
+    ExpressionTooComplex(Span),
     MissingBytes(Span),
     MissingWords(Span),
     UnknownDirective(Token),
@@ -730,6 +731,7 @@ impl Parser {
     }
 
     pub fn parse_expr(&self, tokens: &mut TokenStream) -> Result<Expr, ParseError> {
+        tokens.operators = 0;
         self.expr_parser.parse(tokens, 0)
     }
 
@@ -759,6 +761,8 @@ impl Parser {
 pub struct TokenStream<'a> {
     pos: usize,
     tokens: &'a [Token],
+    // Operators and parentheses seen so far in the current expression
+    operators: usize,
 }
 
 impl<'a> TokenStream<'a> {
@@ -766,6 +770,17 @@ impl<'a> TokenStream<'a> {
         TokenStream {
             pos: 0,
             tokens: tokens,
+            operators: 0,
+        }
+    }
+
+    // Expressions are parsed and evaluated recursively
+    fn count_operator(&mut self, tok: &Token) -> Result<(), ParseError> {
+        self.operators += 1;
+        if self.operators > MAX_OPERATORS {
+            Err(ParseError::ExpressionTooComplex(tok.span().clone()))
+        } else {
+            Ok(())
         }
     }
 
@@ -1225,8 +1240,9 @@ impl PrefixParselet for ParenParselet {
         &self,
         parser: &ExprParser,
         tokens: &mut TokenStream<'a>,
-        _token: Token,
+        token: Token,
     ) -> Result<Expr, ParseError> {
+        tokens.count_operator(&token)?;
         let result = parser.parse(tokens, 0)?;
         tokens.consume(TokenType::RightParen)?;
         Ok(result)
@@ -1333,6 +1349,7 @@ impl PrefixParselet for PrefixOperatorParselet {
         tokens: &mut TokenStream<'a>,
         token: Token,
     ) -> Result<Expr, ParseError> {
+        tokens.count_operator(&token)?;
         let result = parser.parse(tokens, self.precedence())?;
         use crate::lexer::TokenType::*;
         match token.token_type() {
@@ -1373,6 +1390,7 @@ impl InfixParselet for BinaryOperatorParselet {
         left: Expr,
         token: Token,
     ) -> Result<Expr, ParseError> {
+        tokens.count_operator(&token)?;
         let right = parser.parse(tokens, self.precedence())?;
         use crate::lexer::TokenType::*;
         match token.token_type() {
-- 
2.43.0


From 2ebc915f51220ff2316f4775d1b2c8e2961f146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:02 +0000
Subject: [PATCH 09/40] fix: endless recursion on macro parameters outside of a
 macro

An argument such as '%x + 1' at the top level was substituted into itself,
and macro labels in it resolved to those of the called macro.
---
 src/expression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expression.rs b/src/expression.rs
index 29f292e..3c3a8cd 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -209,8 +209,9 @@ impl Expr {
                         Imm(expr) => Err(EvaluationError::ImmediateValueNotAllowedHere(
                             span.with_parent(expr.span()),
                         )),
+                        // The caller's macro args have already been replaced
                         Ex(expr) => Ok(expr
-                            .replace_args(inv_span.clone(), labels, args)?
+                            .replace_args(inv_span.clone(), &HashMap::new(), &HashMap::new())?
                             .with_span(expr.span().with_parent(inv_span.clone()))),
                         IM(im_span, _) => Err(EvaluationError::IndirectionModeNotAllowedHere(
                             span.with_parent(im_span.clone()),
-- 
2.43.0


From e37f7359e941e572e4852f69ad22d2e3a976d985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:40 +0000
Subject: [PATCH 10/40] fix: ignore a PWD variable that isn't the working
 directory

Input files were looked up in $PWD while everything else used the actual
working directory.
---
 src/files.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/files.rs b/src/files.rs
index 7374d1b..62d64fa 100644
--- a/src/files.rs
+++ b/src/files.rs
@@ -57,6 +57,13 @@ pub fn file_exists(path: impl AsRef<Path>) -> bool {
     path.as_ref().is_file()
 }
 
+fn same_file(path1: &Path, path2: &Path) -> bool {
+    match (path1.canonicalize(), path2.canonicalize()) {
+        (Ok(path1), Ok(path2)) => path1 == path2,
+        _ => false,
+    }
+}
+
 pub fn load_bytes(path: impl AsRef<Path>) -> Result<Vec<u8>, FileLoadError> {
     let path = path.as_ref();
     let mut file = File::open(path)
@@ -77,16 +84,15 @@ pub fn load_file(path: impl AsRef<Path>) -> Result<String, FileLoadError> {
 
 impl SourceFiles {
     pub fn new() -> SourceFiles {
-        let working_dir = match std::env::var_os("PWD") {
-            Some(pwd) => PathBuf::from(pwd),
-            None => std::env::current_dir().unwrap(),
+        let current_dir = std::env::current_dir().unwrap_or(PathBuf::from("."));
+        // PWD may be a nicer name for the working directory, but it's only a
+        // name for it if the parent process has kept it up to date.
+        let working_dir = match std::env::var_os("PWD").map(PathBuf::from) {
+            Some(pwd) if pwd.is_absolute() && same_file(&pwd, &current_dir) => pwd,
+            _ => current_dir,
         };
         SourceFiles {
-            working_dir: if working_dir.is_absolute() {
-                working_dir
-            } else {
-                working_dir.canonicalize().unwrap()
-            },
+            working_dir,
             files: vec![],
         }
     }
-- 
2.43.0


From 38191ae12b523dc5173927cc54036facf3b6a96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:07 +0000
Subject: [PATCH 11/40] fix: report cycles of includes and macro calls instead
 of overflowing the stack

---
 src/asm.rs | 20 +++++++++++++++++---
 src/lib.rs |  7 +++++++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 7284cf3..a9f6404 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -20,6 +20,9 @@ use std::collections::HashMap;
 use std::path::Path;
 use uuid::Uuid;
 
+// How deeply macro calls and included files may be nested
+const MAX_NESTING: usize = 200;
+
 pub fn assemble_file(files: &mut SourceFiles, filename: &str) -> Result<Vec<u8>, AssemblyError> {
     let statements = read_statements(files, filename)?;
     let statements = expand_macros(&statements)?;
@@ -48,7 +51,7 @@ fn read_statements(
             let input = Input::new(file.id(), file.contents());
             lexer::lex_input(&input)?
         };
-        replace_includes(&filename, &parser, &mut files, &tokens)?
+        replace_includes(&filename, &parser, &mut files, &tokens, 0)?
     };
     let stmts = parser.parse(&tokens)?;
     let stmts = replace_byte_includes(&filename, &mut files, &stmts)?;
@@ -60,6 +63,7 @@ fn replace_includes(
     parser: &Parser,
     files: &mut SourceFiles,
     tokens: &[Token],
+    depth: usize,
 ) -> Result<Vec<Token>, AssemblyError> {
     let mut results = vec![];
     for line in parser::lines(tokens) {
@@ -71,8 +75,11 @@ fn replace_includes(
                     .map(|path| path.to_string_lossy().to_string())
                     .unwrap_or(String::new());
                 match stmt.fixup_paths(files, Some(filename)) {
-                    Statement::Directive(Directive::Include(_span, typ, path)) => match typ {
+                    Statement::Directive(Directive::Include(span, typ, path)) => match typ {
                         IncludeType::Asm => {
+                            if depth >= MAX_NESTING {
+                                return Err(AssemblyError::NestedTooDeeply(span, "Includes"));
+                            }
                             let file = files.load(Some(filename), &path)?;
                             let new_tokens = {
                                 let input = Input::new(file.id(), file.contents());
@@ -83,6 +90,7 @@ fn replace_includes(
                                 parser,
                                 files,
                                 &new_tokens,
+                                depth + 1,
                             )?;
                             for token in new_tokens.iter() {
                                 results.push(token.clone());
@@ -454,6 +462,7 @@ pub enum AssemblyError {
     ImmediateValueNotAllowedHere(Span),
     IndirectionModeNotAllowedHere(Span),
     NoSuchMacro(Span, String),
+    NestedTooDeeply(Span, &'static str),
     InvalidSpriteType(Span, String),
 }
 
@@ -707,7 +716,7 @@ fn expand_macros(statements: &Statements) -> Result<Statements, AssemblyError> {
     for stmt in statements.iter() {
         match stmt {
             Statement::MacroCall(span, name, args) => {
-                let mut stmts = expand(statements, span.clone(), name.to_owned(), args)?;
+                let mut stmts = expand(statements, span.clone(), name.to_owned(), args, 0)?;
                 new.append(&mut stmts);
             }
             _ => {
@@ -780,7 +789,11 @@ fn expand(
     span: Span,
     name: String,
     args: &[Arg],
+    depth: usize,
 ) -> Result<Vec<Statement>, AssemblyError> {
+    if depth >= MAX_NESTING {
+        return Err(AssemblyError::NestedTooDeeply(span, "Macro calls"));
+    }
     let ident = MacroIdentifier::new(name.clone(), args.len());
     let macrodef = match stmts.macro_def(&ident) {
         Some(def) => def,
@@ -821,6 +834,7 @@ fn expand(
                             ispan.with_parent(span.clone()),
                             iname.to_owned(),
                             new_args.as_slice(),
+                            depth + 1,
                         )?;
                         statements.append(&mut new_stmts);
                     }
diff --git a/src/lib.rs b/src/lib.rs
index 81768d4..d79e607 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -737,6 +737,13 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
             stderr.writeln("Invalid Expression").newline();
             highlight_line(&loc.to_span(), "", files, stderr);
         }
+        NestedTooDeeply(span, what) => {
+            stderr
+                .write(what)
+                .writeln(" are nested too deeply. Do they form a cycle?")
+                .newline();
+            highlight_line(&span, "", files, stderr);
+        }
         ExpressionTooComplex(span) => {
             stderr
                 .writeln("Expression has too many operators")
-- 
2.43.0


From 6aa176a0ee37de5c2eb4bfa48c8187cfa34a51d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:44 +0000
Subject: [PATCH 12/40] fix: dropped statements when a short file is included
 repeatedly

The last line of an included file and the first line of the next one were
taken for the same line if they had the same number in the same file.
---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index e6b63aa..2827582 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -55,7 +55,10 @@ impl<'a> Iterator for LineIterator<'a> {
             let start_line = self.tokens[start].span().end().line();
             let start_file = self.tokens[start].span().end().file();
             let mut end = start + 1;
+            // A file's last line ends with the file, even when the same file is
+            // included again right after it.
             while end < self.tokens.len()
+                && !self.tokens[end - 1].is_eof()
                 && start_line == self.tokens[end].span().start().line()
                 && start_file == self.tokens[end].span().start().file()
             {
-- 
2.43.0


From 33ca68e7cc9a0e8f9cafacf5fb924578ce6fd779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 13/40] fix: report macros without an %end

Everything up to the end of the program was taken for the macro's body.
---
 src/asm.rs    |  2 ++
 src/lib.rs    | 13 +++++++++++++
 src/parser.rs |  6 ++++++
 3 files changed, 21 insertions(+)

diff --git a/src/asm.rs b/src/asm.rs
index a9f6404..907cb2c 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -453,6 +453,7 @@ pub enum AssemblyError {
     FileUtf8Error(String, std::string::FromUtf8Error),
     MacroNameConflictsWithInstruction(Span, String),
     MacroAlreadyExists(Span, Span, String, usize),
+    MacroNotEnded(Span, String),
     DuplicateMacroArg(Span),
     InvalidMacroArg(Span),
     WrongNumberOfMacroArgs(Span, Span, usize, usize),
@@ -518,6 +519,7 @@ impl From<ParseError> for AssemblyError {
             MacroAlreadyExists(span1, span2, string, arity) => {
                 AssemblyError::MacroAlreadyExists(span1, span2, string, arity)
             }
+            MacroNotEnded(span, name) => AssemblyError::MacroNotEnded(span, name),
             DuplicateMacroArg(span) => AssemblyError::DuplicateMacroArg(span),
             InvalidMacroArg(span) => AssemblyError::InvalidMacroArg(span),
             InvalidSpriteType(span, typ) => AssemblyError::InvalidSpriteType(span, typ),
diff --git a/src/lib.rs b/src/lib.rs
index d79e607..08869f3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -886,6 +886,19 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
             highlight_line(existing_span, "Existing definition", files, stderr);
             stderr.newline();
         }
+        MacroNotEnded(span, name) => {
+            stderr
+                .write("Missing ")
+                .cyan()
+                .write("%end")
+                .reset()
+                .write(" for macro: ")
+                .bold()
+                .writeln(name)
+                .reset()
+                .newline();
+            highlight_line(&span, "", files, stderr);
+        }
         DuplicateMacroArg(span) => {
             stderr.writeln("Duplicate macro arg.").newline();
             highlight_line(span, "", files, stderr);
diff --git a/src/parser.rs b/src/parser.rs
index 2827582..4abc3f5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -25,6 +25,7 @@ pub enum ParseError {
     WrongInstructionArgs(Span, String, Vec<Vec<ArgType>>),
     MacroNameConflictsWithInstruction(Span, String),
     MacroAlreadyExists(Span, Span, String, usize),
+    MacroNotEnded(Span, String),
     DuplicateMacroArg(Span),
     InvalidMacroArg(Span),
     InvalidSpriteType(Span, String),
@@ -309,6 +310,7 @@ impl Parser {
                 macro_lines[idx] = true;
                 idx = idx + 1;
                 let mut statements = vec![];
+                let mut ended = false;
                 while idx < lines.len() {
                     let line = lines[idx];
                     let mut tokens = TokenStream::from(line);
@@ -319,6 +321,7 @@ impl Parser {
                             return Err(ParseError::UnexpectedToken(tokens.next()?));
                         } else {
                             idx = idx + 1;
+                            ended = true;
                             break;
                         }
                     } else {
@@ -328,6 +331,9 @@ impl Parser {
                     }
                     idx = idx + 1;
                 }
+                if !ended {
+                    return Err(ParseError::MacroNotEnded(nspan.clone(), name.clone()));
+                }
                 macros.insert(
                     ident,
                     MacroDefinition::new(nspan.clone(), name.clone(), args, statements),
-- 
2.43.0


From d70f4a0fcee1c01d07edd06bb2aa15b4266a5d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:50 +0000
Subject: [PATCH 14/40] fix: arithmetic on positions

.cnop with a multiple of 0 panicked when it moved backwards, large sizes
overflowed, and aligning to a small multiple from a high position counted
up to it.
---
 src/asm.rs | 21 +++++++++++++--------
 src/ast.rs | 27 +++++++++++++++++----------
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 907cb2c..a6a0896 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -348,7 +348,7 @@ fn generate_bytes(
                         panic!("There should be no .include directives left at this point")
                     }
                     Cnop(_, _add, _multiple) => {
-                        pos += dir.size(pos as i32)? as usize;
+                        pos = (pos as i32 + dir.size(pos as i32)?) as usize;
                     }
                 }
             }
@@ -609,6 +609,11 @@ struct NamesBuilder {
     locals: HashMap<String, HashMap<String, NameValue>>,
 }
 
+fn advance(pos: i32, size: i32, span: Span) -> Result<i32, AssemblyError> {
+    pos.checked_add(size)
+        .ok_or(AssemblyError::InvalidCodeLocation(span, pos))
+}
+
 fn compute_labels(statements: &Statements) -> Result<NamesBuilder, AssemblyError> {
     let mut globals = HashMap::new();
     let mut locals = HashMap::new();
@@ -618,7 +623,7 @@ fn compute_labels(statements: &Statements) -> Result<NamesBuilder, AssemblyError
     for statement in statements.iter() {
         use crate::ast::Statement::*;
         match statement {
-            Directive(dir) => pos += dir.size(pos)?,
+            Directive(dir) => pos = advance(pos, dir.size(pos)?, dir.span())?,
             Label(_, name) => {
                 if name.starts_with(".") {
                     let val = NameValue {
@@ -637,8 +642,8 @@ fn compute_labels(statements: &Statements) -> Result<NamesBuilder, AssemblyError
                     current_global = name.to_lowercase();
                 }
             }
-            Instr(_, instr) => {
-                pos += instr.size() as i32;
+            Instr(span, instr) => {
+                pos = advance(pos, instr.size() as i32, span.clone())?;
             }
             Variable(_, _name, _expr) | Alias(_, _name, _expr) => {}
             Comment(_) => {}
@@ -665,10 +670,10 @@ fn compute_names(statements: &Statements) -> Result<(usize, Names), AssemblyErro
     for statement in statements.iter() {
         use crate::ast::Statement::*;
         match statement {
-            Directive(dir) => pos += dir.size(pos)?,
+            Directive(dir) => pos = advance(pos, dir.size(pos)?, dir.span())?,
             Label(_, _name) => (),
-            Instr(_, instr) => {
-                pos += instr.size() as i32;
+            Instr(span, instr) => {
+                pos = advance(pos, instr.size() as i32, span.clone())?;
             }
             Variable(_, name, expr) | Alias(_, name, expr) => {
                 let val = {
@@ -705,7 +710,7 @@ fn compute_names(statements: &Statements) -> Result<(usize, Names), AssemblyErro
         new_locals.insert(key.to_owned(), new_local);
     }
     Ok((
-        (max_pos + 1) as usize,
+        max_pos as usize + 1,
         Names {
             globals: new_globals,
             locals: new_locals,
diff --git a/src/ast.rs b/src/ast.rs
index 85deadd..68cea26 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -2,6 +2,7 @@ use crate::expression::{Arg, EvaluationError, Expr, IndirectionMode};
 use crate::files::SourceFiles;
 use crate::instruction::Instr;
 use crate::location::{Positioned, Span};
+use std::convert::TryFrom;
 use std::collections::HashMap;
 use std::fmt;
 use std::path::{Path, PathBuf};
@@ -246,20 +247,26 @@ impl Directive {
         }
     }
 
-    pub fn eval_cnop(pos: i32, add: &Expr, multiple: &Expr) -> Result<i32, EvaluationError> {
+    pub fn eval_cnop(
+        span: &Span,
+        pos: i32,
+        add: &Expr,
+        multiple: &Expr,
+    ) -> Result<i32, EvaluationError> {
         let add = Directive::eval_cnop_expr(add)?;
         let multiple = Directive::eval_cnop_expr(multiple)?;
         if multiple == 0 {
             Ok(add)
         } else {
-            let mut mult = 0;
-            loop {
-                if pos <= mult {
-                    break;
-                }
-                mult = mult + multiple;
-            }
-            Ok(mult + add)
+            // The first multiple that isn't before pos
+            let (pos, multiple) = (pos as i64, multiple as i64);
+            let mult = (pos + multiple - 1) / multiple * multiple;
+            i32::try_from(mult + add as i64).map_err(|_| {
+                EvaluationError::ArithmeticOverflow(
+                    span.clone(),
+                    format!("Position doesn't fit in 32 bits: {} + {}", mult, add),
+                )
+            })
         }
     }
 
@@ -281,7 +288,7 @@ impl Directive {
             Text(_, size, _bytes) => Ok(*size as i32),
             String(_, size, _bytes) => Ok(*size as i32),
             Include(_, _, _) => Ok(0),
-            Cnop(_, add, multiple) => Ok(Directive::eval_cnop(pos, add, multiple)? - pos),
+            Cnop(span, add, multiple) => Ok(Directive::eval_cnop(span, pos, add, multiple)? - pos),
         }
     }
 
-- 
2.43.0


From 2b4979d51dd5d6a7bce7e98c489a39255c6a1138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 15/40] fix: report failures to write output

The commands panicked (or, for image files and icons, could claim success
after a partial write) when their output could not be written.
---
 src/asm.rs    | 11 ++++++++--
 src/disasm.rs |  8 +++++++
 src/files.rs  | 21 +++++++++++++++++-
 src/lib.rs    | 60 +++++++++++++++++++++++++++++++--------------------
 4 files changed, 74 insertions(+), 26 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index a6a0896..05b75bd 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -6,7 +6,7 @@ use crate::cheader;
 use crate::env::{Env, Names};
 use crate::expression::{Arg, EvaluationError, Expr};
 use crate::files;
-use crate::files::{FileLoadError, SourceFiles};
+use crate::files::{FileLoadError, FileWriteError, SourceFiles};
 use crate::img::{self, ImageLoadError};
 use crate::input::Input;
 use crate::instruction::EncodingError;
@@ -32,7 +32,7 @@ pub fn assemble_file(files: &mut SourceFiles, filename: &str) -> Result<Vec<u8>,
 pub fn expand_file(files: &mut SourceFiles, filename: &str) -> Result<(), AssemblyError> {
     let statements = read_statements(files, filename)?;
     let statements = expand_macros(&statements)?;
-    println!("{}", statements);
+    files::write_stdout(&format!("{}\n", statements))?;
     Ok(())
 }
 
@@ -450,6 +450,7 @@ pub enum AssemblyError {
     WrongInstructionArgs(Span, String, Vec<Vec<ArgType>>),
     UnexpectedEof,
     FileLoadFailure(String, std::io::Error),
+    FileWriteFailure(String, std::io::Error),
     FileUtf8Error(String, std::string::FromUtf8Error),
     MacroNameConflictsWithInstruction(Span, String),
     MacroAlreadyExists(Span, Span, String, usize),
@@ -496,6 +497,12 @@ impl From<FileLoadError> for AssemblyError {
     }
 }
 
+impl From<FileWriteError> for AssemblyError {
+    fn from(FileWriteError(file, err): FileWriteError) -> Self {
+        AssemblyError::FileWriteFailure(file, err)
+    }
+}
+
 impl From<ParseError> for AssemblyError {
     fn from(error: ParseError) -> Self {
         use crate::parser::ParseError::*;
diff --git a/src/disasm.rs b/src/disasm.rs
index 3891b71..74f7bb9 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -1,5 +1,6 @@
 use crate::ast::{ByteValue, Directive, Statement};
 use crate::expression::{Expr, IndirectionMode};
+use crate::files::FileWriteError;
 use crate::instruction::Instr;
 use crate::location::Span;
 use std;
@@ -10,9 +11,16 @@ use std::collections::HashSet;
 pub enum DisasmError {
     NoInstruction(usize, u8),
     NoSuchFile(String, std::io::Error),
+    FileWriteFailure(String, std::io::Error),
     UnknownFileType(String),
 }
 
+impl From<FileWriteError> for DisasmError {
+    fn from(FileWriteError(file, err): FileWriteError) -> Self {
+        DisasmError::FileWriteFailure(file, err)
+    }
+}
+
 pub fn disassemble(
     arrived_from: bool,
     entry_points: &[usize],
diff --git a/src/files.rs b/src/files.rs
index 62d64fa..94b2855 100644
--- a/src/files.rs
+++ b/src/files.rs
@@ -2,7 +2,7 @@ use std;
 use std::fmt;
 
 use std::fs::File;
-use std::io::Read;
+use std::io::{Read, Write};
 use std::path::{Path, PathBuf};
 
 #[derive(Debug)]
@@ -11,6 +11,9 @@ pub enum FileLoadError {
     Utf8Error(String, std::string::FromUtf8Error),
 }
 
+#[derive(Debug)]
+pub struct FileWriteError(pub String, pub std::io::Error);
+
 #[derive(Debug, Eq, PartialEq, Ord, PartialOrd, Hash, Copy, Clone)]
 pub struct FileID {
     value: usize,
@@ -74,6 +77,22 @@ pub fn load_bytes(path: impl AsRef<Path>) -> Result<Vec<u8>, FileLoadError> {
     Ok(bytes)
 }
 
+pub fn write_bytes(path: impl AsRef<Path>, bytes: &[u8]) -> Result<(), FileWriteError> {
+    let path = path.as_ref();
+    File::create(path)
+        .and_then(|mut file| file.write_all(bytes))
+        .map_err(|err| FileWriteError(path.display().to_string(), err))
+}
+
+pub fn write_stdout(text: &str) -> Result<(), FileWriteError> {
+    let stdout = std::io::stdout();
+    let mut stdout = stdout.lock();
+    stdout
+        .write_all(text.as_bytes())
+        .and_then(|_| stdout.flush())
+        .map_err(|err| FileWriteError("<stdout>".to_owned(), err))
+}
+
 pub fn load_file(path: impl AsRef<Path>) -> Result<String, FileLoadError> {
     let path = path.as_ref();
     let bytes = load_bytes(path)?;
diff --git a/src/lib.rs b/src/lib.rs
index 08869f3..3aa3c5a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -42,7 +42,7 @@ use atty::Stream;
 use termcolor::{Color, ColorChoice, ColorSpec, StandardStream, WriteColor};
 
 use crate::expression::EvaluationError;
-use crate::files::SourceFiles;
+use crate::files::{FileWriteError, SourceFiles};
 use clap::clap_app;
 use lazy_static::lazy_static;
 
@@ -164,15 +164,12 @@ pub fn run_command(args: &[String]) {
 
         match img::to_icon(input_file, animation_speed, eyecatch_file) {
             Ok(stmts) => {
-                stdout
-                    .write(ast::Statement::comment(
-                        "NOTE: This file was generated by the waterbear assembler:",
-                    ))
-                    .write("\n");
-                stdout
-                    .write(ast::Statement::comment(&format!("{}", args.join(" "))))
-                    .write("\n");
-                stdout.write(stmts).write("\n");
+                let note = ast::Statement::comment(
+                    "NOTE: This file was generated by the waterbear assembler:",
+                );
+                let command = ast::Statement::comment(&format!("{}", args.join(" ")));
+                let text = format!("{}\n{}\n{}\n", note, command, stmts);
+                check_written(files::write_stdout(&text), &mut stderr);
             }
             Err(IconError::InvalidPaletteSize(p, psize, expected)) => {
                 stderr
@@ -237,11 +234,10 @@ pub fn run_command(args: &[String]) {
 
         match matches.value_of("OUTPUT") {
             Some(output) => {
-                let mut outfile = File::create(output).unwrap();
-                outfile.write(serialized.as_bytes()).unwrap();
+                check_written(files::write_bytes(output, serialized.as_bytes()), &mut stderr);
             }
             None => {
-                println!("{}", serialized);
+                check_written(files::write_stdout(&format!("{}\n", serialized)), &mut stderr);
             }
         }
     } else if let Some(matches) = matches.subcommand_matches("vmi") {
@@ -345,6 +341,24 @@ pub fn run_command(args: &[String]) {
     }
 }
 
+fn write_failure(file: &str, err: &std::io::Error, stderr: &mut ColorWriter) {
+    stderr
+        .write("Error writing file ")
+        .cyan()
+        .write(file)
+        .reset()
+        .write(": ")
+        .writeln(err)
+        .newline();
+}
+
+fn check_written(result: Result<(), FileWriteError>, stderr: &mut ColorWriter) {
+    if let Err(FileWriteError(file, err)) = result {
+        write_failure(&file, &err, stderr);
+        std::process::exit(1);
+    }
+}
+
 fn generate_vmi(
     input_file: &str,
     output_file: &str,
@@ -467,8 +481,7 @@ fn generate_vmi(
         Weekday::Sat => 6,
     };
 
-    let mut outfile = File::create(output_file).unwrap();
-    outfile.write_all(&bytes).unwrap();
+    files::write_bytes(output_file, &bytes)?;
 
     Ok(())
 }
@@ -506,21 +519,22 @@ fn disassemble_cmd(
     };
     let statements = disasm::disassemble(arrived_from, &entry_points, &bytes)?;
 
-    let mut outfile = File::create(output_file).unwrap();
+    let mut listing = String::new();
     for dstmt in statements.to_vec() {
         if positions {
             if let Some(pos) = dstmt.pos() {
-                write!(outfile, "{:04X}| ", pos).unwrap();
+                listing += &format!("{:04X}| ", pos);
             } else {
-                write!(outfile, "    | ").unwrap();
+                listing += "    | ";
             }
         }
-        write!(outfile, "{}", dstmt.statement()).unwrap();
+        listing += &dstmt.statement().to_string();
         if let Some(comment) = dstmt.cmt() {
-            write!(outfile, " ; {}", comment).unwrap();
+            listing += &format!(" ; {}", comment);
         }
-        writeln!(outfile, "").unwrap();
+        listing += "\n";
     }
+    files::write_bytes(output_file, listing.as_bytes())?;
 
     Ok(())
 }
@@ -541,8 +555,7 @@ fn assemble_cmd(
     let input_file = matches.value_of("INPUT").unwrap();
     let bytes = asm::assemble_file(&mut files, input_file)?;
     let output_file = matches.value_of("OUTPUT").unwrap();
-    let mut outfile = File::create(output_file).unwrap();
-    outfile.write_all(&bytes).unwrap();
+    files::write_bytes(output_file, &bytes)?;
 
     stderr
         .write_ok()
@@ -840,6 +853,7 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
         UnexpectedEof => {
             stderr.writeln("Unexpected EOF").newline();
         }
+        FileWriteFailure(file, err) => write_failure(file, err, stderr),
         FileLoadFailure(file, err) => {
             stderr
                 .write("Error loading file ")
-- 
2.43.0


From 65160efe38a9ce6f33c095826234acb844ee8857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:21 +0000
Subject: [PATCH 16/40] fix: reject VMS files that are too short to have a
 header

---
 src/disasm.rs |  1 +
 src/lib.rs    | 10 +++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/disasm.rs b/src/disasm.rs
index 74f7bb9..3c6970b 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -13,6 +13,7 @@ pub enum DisasmError {
     NoSuchFile(String, std::io::Error),
     FileWriteFailure(String, std::io::Error),
     UnknownFileType(String),
+    IncompleteHeader(String),
 }
 
 impl From<FileWriteError> for DisasmError {
diff --git a/src/lib.rs b/src/lib.rs
index 3aa3c5a..22b2aef 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -252,7 +252,7 @@ pub fn run_command(args: &[String]) {
 
         match generate_vmi(input_file, output_file, copyright, offset) {
             Ok(_num_bytes) => {}
-            Err(ref _err) => {
+            Err(ref err) => {
                 stderr
                     .write_error()
                     .space()
@@ -265,8 +265,8 @@ pub fn run_command(args: &[String]) {
                     .red()
                     .write("✘")
                     .reset()
-                    .space();
-                //print_error(&mut files, err, &mut stderr);
+                    .space()
+                    .writeln(format!("{:?}", err));
                 std::process::exit(1);
             }
         }
@@ -376,6 +376,10 @@ fn generate_vmi(
         contents
     };
 
+    if vms_bytes.len() < offset + 0x30 {
+        return Err(DisasmError::IncompleteHeader(input_file.to_string()));
+    }
+
     let basename = {
         let parts: Vec<&str> = input_file.split('/').collect();
         let filename = parts[parts.len() - 1];
-- 
2.43.0


From df32279c66c79a15f36be2697e9584f2936929bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:25 +0000
Subject: [PATCH 17/40] fix: report unreadable images and invalid icon speeds

---
 src/lib.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 22b2aef..3644b72 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -159,7 +159,21 @@ pub fn run_command(args: &[String]) {
     } else if let Some(matches) = matches.subcommand_matches("icon") {
         use img::IconError;
         let input_file = matches.value_of("INPUT").unwrap();
-        let animation_speed = matches.value_of("SPEED").map(|s| s.parse::<u16>().unwrap());
+        let animation_speed = matches.value_of("SPEED").map(|s| match s.parse::<u16>() {
+            Ok(speed) => speed,
+            Err(err) => {
+                stderr
+                    .write_error()
+                    .space()
+                    .write("Invalid animation speed ")
+                    .cyan()
+                    .write(s)
+                    .reset()
+                    .write(": ")
+                    .writeln(err);
+                std::process::exit(1);
+            }
+        });
         let eyecatch_file = matches.value_of("EYECATCH");
 
         match img::to_icon(input_file, animation_speed, eyecatch_file) {
@@ -222,7 +236,13 @@ pub fn run_command(args: &[String]) {
         let input_file = matches.value_of("INPUT").unwrap();
         let format = img::ImageFormat::from(matches.value_of("format").unwrap_or(""))
             .unwrap_or(img::ImageFormat::Asm1Bit);
-        let image = img::load_image(input_file).unwrap();
+        let image = match img::load_image(input_file) {
+            Ok(image) => image,
+            Err(err) => {
+                print_error(&SourceFiles::new(), &AssemblyError::from(err), &mut stderr);
+                std::process::exit(1);
+            }
+        };
 
         use img::ImageFormat;
         let serialized = match format {
-- 
2.43.0


From a66b3ea23a10b0134b16ac0d20bbdfde35da4ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 18/40] fix: report arguments that aren't UTF-8

---
 src/main.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ca1e0af..bb64432 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -3,6 +3,15 @@ extern crate waterbear;
 use std::env;
 
 fn main() {
-    let args: Vec<String> = env::args().collect();
+    let mut args: Vec<String> = vec![];
+    for arg in env::args_os() {
+        match arg.into_string() {
+            Ok(arg) => args.push(arg),
+            Err(arg) => {
+                eprintln!("Invalid UTF-8 in argument: {}", arg.to_string_lossy());
+                std::process::exit(1);
+            }
+        }
+    }
     waterbear::run_command(&args);
 }
-- 
2.43.0


From 2da85dc4931d7e046de7e85bd799c4d9bd96775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:05 +0000
Subject: [PATCH 19/40] fix: reject animation speeds that don't fit in 16 bits

---
 src/asm.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 05b75bd..3e0cfc5 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -17,6 +17,7 @@ use crate::parser;
 use crate::parser::{ParseError, Parser};
 use std;
 use std::collections::HashMap;
+use std::convert::TryFrom;
 use std::path::Path;
 use uuid::Uuid;
 
@@ -167,7 +168,17 @@ fn replace_byte_includes(
                 }
                 IncludeType::Icon(ref speed_opt, ref eyecatch_opt) => {
                     let speed = match speed_opt {
-                        Some(expr) => Some(expr.eval(&HashMap::new())? as u16),
+                        Some(expr) => {
+                            let value = expr.eval(&HashMap::new())?;
+                            let speed = u16::try_from(value).map_err(|_| {
+                                AssemblyError::NumOutOfRange {
+                                    span: expr.span(),
+                                    bits: 16,
+                                    value,
+                                }
+                            })?;
+                            Some(speed)
+                        }
                         None => None,
                     };
                     let eyecatch = match eyecatch_opt {
@@ -184,7 +195,7 @@ fn replace_byte_includes(
                     };
                     let path = files.path(Some(filename), path);
                     let eyecatch = eyecatch.map(|eyecatch| files.path(Some(filename), eyecatch));
-                    let stmts = img::to_icon(&path, speed.map(|v| v as u16), eyecatch)?;
+                    let stmts = img::to_icon(&path, speed, eyecatch)?;
                     for stmt in stmts.as_slice() {
                         results.push(stmt.clone());
                     }
-- 
2.43.0


From 1fd5cb995446198f4786884f976dc37920290db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 20/40] fix: reject images without any frame

---
 src/img.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/img.rs b/src/img.rs
index 13e5a48..c003a46 100644
--- a/src/img.rs
+++ b/src/img.rs
@@ -8,6 +8,7 @@ use serde::{Deserialize, Serialize};
 use std::collections::HashMap;
 use std::ffi::OsStr;
 use std::fs::File;
+use std::io::ErrorKind;
 use std::path::Path;
 
 #[derive(Debug)]
@@ -448,6 +449,18 @@ impl Image {
 
 pub fn load_image(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
     let path = path.as_ref();
+    let image = load_frames(path)?;
+    if image.frames.is_empty() {
+        let err = std::io::Error::new(ErrorKind::InvalidData, "The image has no frames");
+        return Err(ImageLoadError::FileLoadFailure(
+            path.display().to_string(),
+            err,
+        ));
+    }
+    Ok(image)
+}
+
+fn load_frames(path: &Path) -> Result<Image, ImageLoadError> {
     match path.extension().and_then(OsStr::to_str) {
         Some("png") => load_png(path),
         Some("gif") => load_gif(path),
-- 
2.43.0


From ab5ce146548524b3cd616c59ba9bc8df6cd8ec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 21/40] fix: resolve eyecatch paths relative to the including
 file

They were resolved relative to the main source file, and any other string
in the directive that equalled the image's path was replaced as well.
---
 src/asm.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 3e0cfc5..434a1e4 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -71,10 +71,6 @@ fn replace_includes(
         let mut stream = parser::TokenStream::from(line);
         match parser.parse_directive(&mut stream) {
             Ok(Some(stmt)) => {
-                let original_path = stmt
-                    .path()
-                    .map(|path| path.to_string_lossy().to_string())
-                    .unwrap_or(String::new());
                 match stmt.fixup_paths(files, Some(filename)) {
                     Statement::Directive(Directive::Include(span, typ, path)) => match typ {
                         IncludeType::Asm => {
@@ -109,9 +105,21 @@ fn replace_includes(
                             results.append(&mut new_tokens);
                         }
                         IncludeType::Bytes | IncludeType::Icon(_, _) | IncludeType::Sprite(..) => {
-                            for token in line.iter() {
+                            let mut path = Some(path);
+                            for (idx, token) in line.iter().enumerate() {
                                 if let TokenType::String(string) = token.token_type() {
-                                    if string == &original_path {
+                                    // The first string is the included file
+                                    let path = match path.take() {
+                                        Some(path) => Some(path),
+                                        None if idx >= 2
+                                            && line[idx - 2].has_name("eyecatch")
+                                            && line[idx - 1].is_equ() =>
+                                        {
+                                            Some(files.path(Some(filename), string))
+                                        }
+                                        None => None,
+                                    };
+                                    if let Some(path) = path {
                                         results.push(Token::new(
                                             TokenType::String(path.display().to_string()),
                                             token.span().clone(),
-- 
2.43.0


From 94bfd15b0f65e901992f890d8f61862c2779e477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:28 +0000
Subject: [PATCH 22/40] fix: size of reassembled binaries

Padding to a multiple of 0x200 gave the wrong size for binaries whose size
isn't one, and for those that end with at least 0x200 zeros.
---
 src/disasm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disasm.rs b/src/disasm.rs
index 3c6970b..c3fb8d7 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -128,7 +128,7 @@ pub fn disassemble(
     }
 
     stmts.push_comment("\nPad size of binary");
-    stmts.push_cnop(bytes.len() % 0x200, 0x200);
+    stmts.push_cnop(0, bytes.len());
 
     stmts.push_comment("\nPSW bits");
     for (name, value) in names.sorted_psw_bits() {
-- 
2.43.0


From bc5b5a1cfb98cc53b2c309dd6f35e529bc7d5132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:33 +0000
Subject: [PATCH 23/40] fix: undefined labels in disassemblies

Instructions that refer to a position outside of the binary used a label
that was never declared.
---
 src/disasm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/disasm.rs b/src/disasm.rs
index c3fb8d7..159c794 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -213,6 +213,8 @@ fn build_names(graph: &InstructionGraph<i32, u8>) -> Names {
     compute_bit_aliases(&mut names);
     compute_aliases(&mut names);
     compute_labels(graph, &mut names);
+    // Targets outside of the binary don't have a statement to put a label on
+    names.labels.retain(|pos, _| graph.contains_instr(*pos));
     names
 }
 
-- 
2.43.0


From 311a7eca9ec069aa0526898bbf01311f4ecfb31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:39 +0000
Subject: [PATCH 24/40] fix: disassembly time and overlap annotations

An instruction that is reachable along several paths of equal length was
visited once per path, i.e. exponentially often. An overlap with the third
byte of an instruction went unmentioned.
---
 src/disasm.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/disasm.rs b/src/disasm.rs
index 159c794..e1b4bed 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -947,6 +947,10 @@ fn build_instruction_graph(
                 eprintln!("Invalid instruction position found: {}", pos);
                 continue;
             }
+            if graph.contains_instr(*pos) {
+                // Found along several paths of the same length
+                continue;
+            }
             let decoded = Instr::<i32, u8>::decode(&bytes[*pos..bytes.len()]);
             match decoded {
                 Some(instr) => {
@@ -1078,7 +1082,7 @@ impl<Ex, IM> InstructionGraph<Ex, IM> {
     pub fn find_overlaps(&self, pos: usize) -> Vec<usize> {
         let mut overlaps = vec![];
         if let Some(instr) = self.instrs.get(&pos) {
-            for idx in 1..2 {
+            for idx in 1..3 {
                 if pos >= idx {
                     let loc = pos - idx;
                     if let Some(instr2) = self.instrs.get(&loc) {
-- 
2.43.0


From 6dce75f14aa5cd6f3181710fbfa3d228fec16c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:18 +0000
Subject: [PATCH 25/40] fix: reassembling the output of expand

Strings were printed without their quotes, and with escapes that the
lexer doesn't know. Quotes and backslashes weren't escaped. Octal
numbers were printed as hex numbers, and empty includes as a .byte
without any values. Parentheses are limited separately from operators,
as expand adds some.
---
 src/ast.rs        | 31 +++++++++++++------------------
 src/expression.rs |  4 ++--
 src/parser.rs     | 10 ++++++++--
 3 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 68cea26..9bed519 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -361,6 +361,10 @@ impl fmt::Display for Directive {
             }
             Directive::Byte(_, vec) => {
                 write!(f, "  .byte ")?;
+                if vec.is_empty() {
+                    // An empty file was included
+                    write!(f, "\"\"")?;
+                }
                 let mut first = true;
                 for b in vec {
                     if first {
@@ -373,10 +377,10 @@ impl fmt::Display for Directive {
                 write!(f, "")
             }
             Directive::Text(_, size, bytes) => {
-                write!(f, "  .text {} {}", size, escape_string(&bytes))
+                write!(f, "  .text {} \"{}\"", size, escape_string(&bytes))
             }
             Directive::String(_, size, bytes) => {
-                write!(f, "  .string {} {}", size, escape_string(&bytes))
+                write!(f, "  .string {} \"{}\"", size, escape_string(&bytes))
             }
             Directive::Org(_, num) => {
                 if *num == 0 {
@@ -619,10 +623,13 @@ fn escape_string<'a>(bytes: &Vec<u8>) -> String {
         }
         let current = bytes[index];
         match current {
-            // \a
-            0x07 => {
-                escaped.push(0x5C);
-                escaped.push(0x61)
+            // Only the escapes that the lexer decodes can be used.  All other
+            // bytes stand for themselves.
+
+            // \" and \\
+            b'"' | b'\\' => {
+                escaped.push(b'\\');
+                escaped.push(current)
             }
 
             // \b
@@ -631,12 +638,6 @@ fn escape_string<'a>(bytes: &Vec<u8>) -> String {
                 escaped.push(0x62)
             }
 
-            // \f
-            0x0C => {
-                escaped.push(0x5C);
-                escaped.push(0x66)
-            }
-
             // \n
             0x0A => {
                 escaped.push(0x5C);
@@ -655,12 +656,6 @@ fn escape_string<'a>(bytes: &Vec<u8>) -> String {
                 escaped.push(0x74)
             }
 
-            // \v
-            0x0B => {
-                escaped.push(0x5C);
-                escaped.push(0x76)
-            }
-
             // \0
             0x00 => {
                 escaped.push(b'\\');
diff --git a/src/expression.rs b/src/expression.rs
index 3c3a8cd..5714025 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -427,7 +427,7 @@ impl fmt::Display for Expr {
                         write!(f, "${:04X}", num)
                     }
                 }
-                Radix::Octal => write!(f, "${:04o}", num),
+                Radix::Octal => write!(f, "0o{:04o}", num),
                 Radix::Binary => write!(f, "%{:08b}", num),
             },
             Expr::UpperByte(_, expr) => {
@@ -460,7 +460,7 @@ impl fmt::Display for Expr {
     }
 }
 
-// The most operators that an expression may contain
+// The most operators (and the most parentheses) that an expression may contain
 pub const MAX_OPERATORS: usize = 250;
 
 impl Expr {
diff --git a/src/parser.rs b/src/parser.rs
index 4abc3f5..626412d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -741,6 +741,7 @@ impl Parser {
 
     pub fn parse_expr(&self, tokens: &mut TokenStream) -> Result<Expr, ParseError> {
         tokens.operators = 0;
+        tokens.parens = 0;
         self.expr_parser.parse(tokens, 0)
     }
 
@@ -772,6 +773,7 @@ pub struct TokenStream<'a> {
     tokens: &'a [Token],
     // Operators and parentheses seen so far in the current expression
     operators: usize,
+    parens: usize,
 }
 
 impl<'a> TokenStream<'a> {
@@ -780,13 +782,17 @@ impl<'a> TokenStream<'a> {
             pos: 0,
             tokens: tokens,
             operators: 0,
+            parens: 0,
         }
     }
 
     // Expressions are parsed and evaluated recursively
     fn count_operator(&mut self, tok: &Token) -> Result<(), ParseError> {
-        self.operators += 1;
-        if self.operators > MAX_OPERATORS {
+        match tok.token_type() {
+            TokenType::LeftParen => self.parens += 1,
+            _ => self.operators += 1,
+        }
+        if self.operators > MAX_OPERATORS || self.parens > MAX_OPERATORS {
             Err(ParseError::ExpressionTooComplex(tok.span().clone()))
         } else {
             Ok(())
-- 
2.43.0


From 57c105e50df2a337ed5752a761ea65f88e5e8d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:40 +0000
Subject: [PATCH 26/40] fix: report arguments that aren't UTF-8 in the C
 library

They caused a panic, which aborts the calling process. Also accept a
null pointer when there aren't any arguments.
---
 libwaterbear/src/lib.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libwaterbear/src/lib.rs b/libwaterbear/src/lib.rs
index 8bf8f8e..4a03d5e 100644
--- a/libwaterbear/src/lib.rs
+++ b/libwaterbear/src/lib.rs
@@ -7,10 +7,17 @@ use std::slice;
 
 #[no_mangle]
 pub extern "C" fn waterbear_invoke_command_line(len: usize, ptr: *const *const c_char) {
-    let args: Vec<String> = unsafe { slice::from_raw_parts(ptr, len) }.into_iter()
-        .into_iter()
-        .map(|c_char: &*const c_char| unsafe { CStr::from_ptr(*c_char) }.to_str().unwrap().to_owned() )
-        .collect();
+    // The pointer may be null if there aren't any args
+    let ptrs = if len == 0 { &[] } else { unsafe { slice::from_raw_parts(ptr, len) } };
+    let mut args: Vec<String> = vec![];
+    for c_char in ptrs {
+        match unsafe { CStr::from_ptr(*c_char) }.to_str() {
+            Ok(arg) => args.push(arg.to_owned()),
+            Err(err) => {
+                eprintln!("Invalid UTF-8 in argument: {}", err);
+                std::process::exit(1);
+            }
+        }
+    }
     waterbear::run_command(&args)
 }
-
-- 
2.43.0


From 8c98c7da74556645eb0c7331dcbcf2f720b2efff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:43 +0000
Subject: [PATCH 27/40] fix: local labels at the end of a file within a macro

---
 src/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 626412d..3359040 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -201,12 +201,12 @@ impl Parser {
                 let span = Span::from(tok.span(), colon.span());
                 stmts.push(MacroStatement::MacroLabel(span, name.to_owned()));
             }
-        } else if tokens.check(Token::is_local_label_name) && tokens.len() == 1 {
+        } else if tokens.check(Token::is_local_label_name) && tokens.is_last() {
             let tok = tokens.next()?;
             if let TokenType::Name(name) = tok.token_type() {
                 stmts.push(MacroStatement::Label(tok.span().clone(), name.to_owned()));
             }
-        } else if tokens.check(Token::is_local_macro_label) && tokens.len() == 1 {
+        } else if tokens.check(Token::is_local_macro_label) && tokens.is_last() {
             let tok = tokens.next()?;
             if let TokenType::MacroLabel(name) = tok.token_type() {
                 stmts.push(MacroStatement::MacroLabel(
@@ -815,6 +815,11 @@ impl<'a> TokenStream<'a> {
         self.pos >= self.tokens.len() || self.check(Token::is_eof)
     }
 
+    // Whether the current token ends its line
+    fn is_last(&self) -> bool {
+        self.len() == 1 || self.check_at(1, Token::is_eof)
+    }
+
     pub fn read_include_type(&mut self) -> Result<(Span, IncludeType), ParseError> {
         if self.check(|tok| tok.has_name("asm")) {
             let tok = self.next()?;
-- 
2.43.0


From ea731476a0fbbb194c6ca3534aba83900c02d3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:26 +0000
Subject: [PATCH 28/40] fix: files found in the working directory for nested
 includes

---
 src/files.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/files.rs b/src/files.rs
index 94b2855..cf02fe7 100644
--- a/src/files.rs
+++ b/src/files.rs
@@ -172,7 +172,7 @@ impl SourceFiles {
                     filename.display()
                 );
                 eprintln!("         Please change the path to be relative to the source file, instead of relative to your working directory.");
-                filename.to_path_buf()
+                self.working_dir.join(filename)
             }
         } else {
             self.working_dir.join(filename)
-- 
2.43.0


From b369fabf6404b03876a79cac8d96196b79f0fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:21 +0000
Subject: [PATCH 29/40] fix: animations in files with upper case extensions

---
 src/img.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/img.rs b/src/img.rs
index c003a46..9e6e5de 100644
--- a/src/img.rs
+++ b/src/img.rs
@@ -461,7 +461,8 @@ pub fn load_image(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
 }
 
 fn load_frames(path: &Path) -> Result<Image, ImageLoadError> {
-    match path.extension().and_then(OsStr::to_str) {
+    let extension = path.extension().and_then(OsStr::to_str);
+    match extension.map(str::to_ascii_lowercase).as_deref() {
         Some("png") => load_png(path),
         Some("gif") => load_gif(path),
         _ => {
-- 
2.43.0


From 60f6afa35db594c586ab5edd791faaa40ef81866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:48 +0000
Subject: [PATCH 30/40] fix: file names with line breaks in generated comments

---
 src/ast.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 9bed519..1d2b88d 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -522,9 +522,9 @@ impl fmt::Display for Statement {
                     write!(f, "{}", comment)
                 } else if comment.starts_with("\n") {
                     writeln!(f, "")?;
-                    write!(f, "  ;; {}", &comment[1..comment.len()])
+                    write_comment(f, &comment[1..comment.len()])
                 } else {
-                    write!(f, "  ;; {}", comment)
+                    write_comment(f, comment)
                 }
             }
             Statement::MacroCall(_, name, args) => {
@@ -538,6 +538,17 @@ impl fmt::Display for Statement {
     }
 }
 
+// Every line of the text is a comment of its own, so that nothing in it is code.
+fn write_comment(f: &mut fmt::Formatter, text: &str) -> fmt::Result {
+    for (idx, line) in text.split('\n').enumerate() {
+        if idx > 0 {
+            writeln!(f)?;
+        }
+        write!(f, "  ;; {}", line)?;
+    }
+    Ok(())
+}
+
 #[derive(Debug)]
 pub struct Statements {
     macros: HashMap<MacroIdentifier, MacroDefinition>,
-- 
2.43.0


From 7224f246b61f7c2426815ec79158199db0c35d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:48 +0000
Subject: [PATCH 31/40] fix: locate clashing labels and unknown parameters of
 macros with their call sites

---
 src/asm.rs        | 33 ++++++++++++++++++++++-----------
 src/expression.rs |  8 ++++++--
 src/lib.rs        |  4 ----
 3 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 434a1e4..53076a9 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -477,7 +477,6 @@ pub enum AssemblyError {
     DuplicateMacroArg(Span),
     InvalidMacroArg(Span),
     WrongNumberOfMacroArgs(Span, Span, usize, usize),
-    DuplicateLabel(Span),
     MacroLabelOutsideOfMacro(Span),
     MacroArgOutsideOfMacro(Span),
     ImmediateValueNotAllowedHere(Span),
@@ -773,7 +772,9 @@ fn replace_args(
                 Some(arg) => {
                     new_args.push(arg.clone());
                 }
-                None => return Err(AssemblyError::InvalidMacroArg(aspan.clone())),
+                None => {
+                    return Err(AssemblyError::InvalidMacroArg(aspan.with_parent(inv_span)));
+                }
             },
             Arg::Imm(expr) => {
                 new_args.push(Arg::Imm(expr.replace_macro_args(
@@ -795,20 +796,28 @@ fn replace_args(
     Ok(new_args)
 }
 
-fn gen_labels(statements: &[MacroStatement]) -> Result<HashMap<String, String>, AssemblyError> {
+fn gen_labels(
+    inv_span: &Span,
+    statements: &[MacroStatement],
+) -> Result<HashMap<String, String>, AssemblyError> {
     let mut map = HashMap::new();
+    let mut spans: HashMap<&str, &Span> = HashMap::new();
     for stmt in statements.iter() {
         match stmt {
             MacroStatement::MacroLabel(span, name) => {
-                if !map.contains_key(name) {
+                if let Some(existing) = spans.insert(name, span) {
+                    return Err(AssemblyError::NameAlreadyExists(
+                        span.with_parent(inv_span.clone()),
+                        existing.with_parent(inv_span.clone()),
+                        name.to_owned(),
+                    ));
+                } else {
                     let label_name = format!(
                         "{}_{}",
                         name.replace("%", ""),
                         Uuid::new_v4().to_string().replace("-", "")
                     );
                     map.insert(name.to_owned(), label_name);
-                } else {
-                    return Err(AssemblyError::DuplicateLabel(span.clone()));
                 }
             }
             _ => {}
@@ -852,7 +861,7 @@ fn expand(
         }
         argmap
     };
-    let labels = gen_labels(macrodef.body())?;
+    let labels = gen_labels(&span, macrodef.body())?;
     let mut statements = vec![];
     for stmt in macrodef.body().iter() {
         use crate::ast::MacroStatement::*;
@@ -891,12 +900,14 @@ fn expand(
                     }
                 }
             }
-            Label(span, string) => {
-                statements.push(Statement::Label(span.clone(), string.clone()));
+            Label(lspan, string) => {
+                let lspan = lspan.with_parent(span.clone());
+                statements.push(Statement::Label(lspan, string.clone()));
             }
-            MacroLabel(span, name) => {
+            MacroLabel(lspan, name) => {
                 let label_name = labels[name].clone();
-                statements.push(Statement::Label(span.clone(), label_name));
+                let lspan = lspan.with_parent(span.clone());
+                statements.push(Statement::Label(lspan, label_name));
             }
         }
     }
diff --git a/src/expression.rs b/src/expression.rs
index 5714025..562f160 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -200,7 +200,9 @@ impl Expr {
                     span.with_parent(inv_span.clone()).clone(),
                     label.clone(),
                 )),
-                None => Err(EvaluationError::MacroLabelOutsideOfMacro(span.clone())),
+                None => Err(EvaluationError::MacroLabelOutsideOfMacro(
+                    span.with_parent(inv_span.clone()),
+                )),
             },
             MacroArg(span, name) => {
                 use crate::expression::Arg::*;
@@ -220,7 +222,9 @@ impl Expr {
                             mspan.with_parent(inv_span.clone()),
                         )),
                     },
-                    None => Err(EvaluationError::InvalidMacroArg(span.clone())),
+                    None => Err(EvaluationError::InvalidMacroArg(
+                        span.with_parent(inv_span.clone()),
+                    )),
                 }
             }
         }
diff --git a/src/lib.rs b/src/lib.rs
index 3644b72..8f50ba1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -967,10 +967,6 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
             );
             stderr.newline();
         }
-        DuplicateLabel(span) => {
-            stderr.writeln("Found duplicate label").newline();
-            highlight_line(span, "", files, stderr);
-        }
         MacroLabelOutsideOfMacro(span) => {
             stderr
                 .writeln("Macro label found outside of macro definition.")
-- 
2.43.0


From 178ec4839fe631469a91a1491503fc01e96bf321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:34 +0000
Subject: [PATCH 32/40] fix: fail when the version information cannot be
 written

---
 src/lib.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8f50ba1..0e4c842 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -355,6 +355,7 @@ pub fn run_command(args: &[String]) {
             .writeln(GITSHA)
             .reset()
             .newline();
+        check_written(stdout.finish("<stdout>"), &mut stderr);
     } else {
         eprintln!("No subcommand specified");
         std::process::exit(1);
@@ -1254,11 +1255,32 @@ fn end_of_line(pos: usize, text: &str) -> usize {
 
 struct ColorWriter {
     stream: StandardStream,
+    error: Option<std::io::Error>,
 }
 
 impl ColorWriter {
     pub fn new(stream: StandardStream) -> ColorWriter {
-        ColorWriter { stream }
+        ColorWriter {
+            stream,
+            error: None,
+        }
+    }
+
+    fn check(&mut self, result: std::io::Result<()>) -> &mut ColorWriter {
+        if let Err(err) = result {
+            self.error.get_or_insert(err);
+        }
+        self
+    }
+
+    // Flushes the stream, and reports the first error since it was created
+    pub fn finish(&mut self, name: &str) -> Result<(), FileWriteError> {
+        let result = self.stream.flush();
+        self.check(result);
+        match self.error.take() {
+            Some(err) => Err(FileWriteError(name.to_owned(), err)),
+            None => Ok(()),
+        }
     }
 
     pub fn newline(&mut self) -> &mut ColorWriter {
@@ -1285,13 +1307,13 @@ impl ColorWriter {
     }
 
     pub fn write<T: Display>(&mut self, value: T) -> &mut ColorWriter {
-        write!(self.stream, "{}", value).ok();
-        self
+        let result = write!(self.stream, "{}", value);
+        self.check(result)
     }
 
     pub fn writeln<T: Display>(&mut self, value: T) -> &mut ColorWriter {
-        writeln!(self.stream, "{}", value).ok();
-        self
+        let result = writeln!(self.stream, "{}", value);
+        self.check(result)
     }
 
     pub fn reset(&mut self) -> &mut ColorWriter {
-- 
2.43.0


From 6f5b0cbcdc73736054e921ec18658d5ccf1f3b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:19 +0000
Subject: [PATCH 33/40] fix: reading a token doesn't search the rest of the
 file

---
 src/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 0db872e..45b0b97 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -334,9 +334,9 @@ impl Matcher {
     /// Returns `None` if the input doesn't match, and `Some(None)` if
     /// it matches, but isn't a valid token.
     pub fn do_match<'a>(&self, input: &Input<'a>) -> Option<Option<(Input<'a>, Token)>> {
-        match self.regex.captures_iter(input.as_str()).next() {
-            Some(cap) => {
-                let capture: &str = &cap[0];
+        match self.regex.find(input.as_str()) {
+            Some(found) => {
+                let capture: &str = found.as_str();
                 let convert = &self.convert;
                 let new_input = input.update(capture.len());
                 let span = Span::new(input.location(), new_input.location());
-- 
2.43.0


From 22314d3e784d4e2d5b76b73b33da3ff3691f18e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:05 +0000
Subject: [PATCH 34/40] fix: refuse images that declare more pixels than fit in
 memory

---
 src/img.rs | 88 +++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 60 insertions(+), 28 deletions(-)

diff --git a/src/img.rs b/src/img.rs
index 9e6e5de..3d83c82 100644
--- a/src/img.rs
+++ b/src/img.rs
@@ -2,7 +2,8 @@ use enum_iterator::Sequence;
 use image;
 use image::codecs::gif::GifDecoder;
 use image::codecs::png::PngDecoder;
-use image::AnimationDecoder;
+use image::io::Limits;
+use image::{AnimationDecoder, Frames, ImageDecoder};
 use image::{DynamicImage, GenericImageView, Rgba};
 use serde::{Deserialize, Serialize};
 use std::collections::HashMap;
@@ -475,22 +476,14 @@ fn load_frames(path: &Path) -> Result<Image, ImageLoadError> {
 
 fn load_gif(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
     let path = path.as_ref();
-    let file_in = File::open(path)
+    let data = std::fs::read(path)
         .map_err(|e| ImageLoadError::FileLoadFailure(path.display().to_string(), e))?;
-    let decoder = GifDecoder::new(file_in)
-        .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))?;
-    let frames = decoder
-        .into_frames()
-        .collect_frames()
+    let decoder = GifDecoder::new(data.as_slice())
         .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))?;
-    let mut out_frames = vec![];
-    for frame in frames {
-        out_frames.push(to_frame(
-            frame.delay().numer_denom_ms(),
-            &frame.into_buffer(),
-        ));
-    }
-    Ok(Image { frames: out_frames })
+    check_size(&decoder)
+        .and_then(|_| check_gif_frames(&data))
+        .and_then(|_| to_frames(decoder.into_frames()))
+        .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))
 }
 
 fn load_png(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
@@ -499,20 +492,11 @@ fn load_png(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
         .map_err(|e| ImageLoadError::FileLoadFailure(path.display().to_string(), e))?;
     let decoder = PngDecoder::new(file_in)
         .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))?;
+    check_size(&decoder)
+        .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))?;
     if decoder.is_apng() {
-        let frames = decoder
-            .apng()
-            .into_frames()
-            .collect_frames()
-            .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))?;
-        let mut out_frames = vec![];
-        for frame in frames {
-            out_frames.push(to_frame(
-                frame.delay().numer_denom_ms(),
-                &frame.into_buffer(),
-            ));
-        }
-        Ok(Image { frames: out_frames })
+        to_frames(decoder.apng().into_frames())
+            .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))
     } else {
         let image = DynamicImage::from_decoder(decoder)
             .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))?;
@@ -520,6 +504,54 @@ fn load_png(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
     }
 }
 
+/// Files can declare dimensions that need more memory than there is,
+/// so only images within the image library's limits are decoded.
+fn check_size<'a>(decoder: &impl ImageDecoder<'a>) -> image::ImageResult<()> {
+    Limits::default().reserve(decoder.total_bytes())
+}
+
+/// The decoder allocates the size that a frame declares, even if the
+/// frame is larger than the image it belongs to.
+fn check_gif_frames(data: &[u8]) -> image::ImageResult<()> {
+    let byte = |pos: usize| *data.get(pos).unwrap_or(&0) as usize;
+    let color_table = |flags: usize| match flags & 0x80 {
+        0 => 0,
+        _ => 3 << ((flags & 7) + 1),
+    };
+    let mut pos = 13 + color_table(byte(10));
+    loop {
+        match byte(pos) {
+            0x2C => {
+                let width = byte(pos + 5) | byte(pos + 6) << 8;
+                let height = byte(pos + 7) | byte(pos + 8) << 8;
+                Limits::default().reserve(width as u64 * height as u64 * 4)?;
+                pos = pos + 10 + color_table(byte(pos + 9)) + 1;
+            }
+            0x21 => pos = pos + 2,
+            _ => return Ok(()),
+        }
+        // Skip the sub-blocks
+        while byte(pos) != 0 {
+            pos = pos + byte(pos) + 1;
+        }
+        pos = pos + 1;
+    }
+}
+
+fn to_frames(frames: Frames) -> image::ImageResult<Image> {
+    let mut limits = Limits::default();
+    let mut out_frames = vec![];
+    for frame in frames {
+        let frame = frame?;
+        limits.reserve_usize(frame.buffer().len())?;
+        out_frames.push(to_frame(
+            frame.delay().numer_denom_ms(),
+            &frame.into_buffer(),
+        ));
+    }
+    Ok(Image { frames: out_frames })
+}
+
 fn to_frame<T: GenericImageView<Pixel = Rgba<u8>>>(delay: (u32, u32), frame: &T) -> Frame {
     let (width, height) = frame.dimensions();
 
-- 
2.43.0


From b68795816852f2ff4c30f77a7286bdf9f4d61799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:02 +0000
Subject: [PATCH 35/40] fix: refuse images that are larger than memory or
 without pixels

---
 src/img.rs | 55 +++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/img.rs b/src/img.rs
index 3d83c82..ef05f72 100644
--- a/src/img.rs
+++ b/src/img.rs
@@ -2,7 +2,7 @@ use enum_iterator::Sequence;
 use image;
 use image::codecs::gif::GifDecoder;
 use image::codecs::png::PngDecoder;
-use image::io::Limits;
+use image::error::{ImageError, LimitError, LimitErrorKind, ParameterError, ParameterErrorKind};
 use image::{AnimationDecoder, Frames, ImageDecoder};
 use image::{DynamicImage, GenericImageView, Rgba};
 use serde::{Deserialize, Serialize};
@@ -467,7 +467,10 @@ fn load_frames(path: &Path) -> Result<Image, ImageLoadError> {
         Some("png") => load_png(path),
         Some("gif") => load_gif(path),
         _ => {
-            let image = image::open(path)
+            let image = image::image_dimensions(path)
+                .and_then(|size| check_size(size).map(|_| size))
+                .and_then(check_not_empty)
+                .and_then(|_| image::open(path))
                 .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))?;
             Ok(to_image(&image))
         }
@@ -480,7 +483,7 @@ fn load_gif(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
         .map_err(|e| ImageLoadError::FileLoadFailure(path.display().to_string(), e))?;
     let decoder = GifDecoder::new(data.as_slice())
         .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))?;
-    check_size(&decoder)
+    check_size(decoder.dimensions())
         .and_then(|_| check_gif_frames(&data))
         .and_then(|_| to_frames(decoder.into_frames()))
         .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))
@@ -492,7 +495,7 @@ fn load_png(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
         .map_err(|e| ImageLoadError::FileLoadFailure(path.display().to_string(), e))?;
     let decoder = PngDecoder::new(file_in)
         .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))?;
-    check_size(&decoder)
+    check_size(decoder.dimensions())
         .map_err(|e| ImageLoadError::ImageParseError(path.display().to_string(), e))?;
     if decoder.is_apng() {
         to_frames(decoder.apng().into_frames())
@@ -504,10 +507,38 @@ fn load_png(path: impl AsRef<Path>) -> Result<Image, ImageLoadError> {
     }
 }
 
-/// Files can declare dimensions that need more memory than there is,
-/// so only images within the image library's limits are decoded.
-fn check_size<'a>(decoder: &impl ImageDecoder<'a>) -> image::ImageResult<()> {
-    Limits::default().reserve(decoder.total_bytes())
+/// The most pixels that an image can have, in all of its frames
+/// together, and the most in one row or column. This is far more than
+/// what fits on a VMU, but small files can declare dimensions that need
+/// more memory than there is.
+const MAX_PIXELS: u64 = 4096 * 4096;
+const MAX_DIMENSION: u32 = 65535;
+
+fn check_size((width, height): (u32, u32)) -> image::ImageResult<()> {
+    if width > MAX_DIMENSION || height > MAX_DIMENSION {
+        return Err(too_large());
+    }
+    check_pixels(width as u64 * height as u64)
+}
+
+fn check_pixels(pixels: u64) -> image::ImageResult<()> {
+    if pixels > MAX_PIXELS {
+        return Err(too_large());
+    }
+    Ok(())
+}
+
+fn too_large() -> ImageError {
+    ImageError::Limits(LimitError::from_kind(LimitErrorKind::DimensionError))
+}
+
+/// Some decoders can't handle images without pixels.
+fn check_not_empty((width, height): (u32, u32)) -> image::ImageResult<()> {
+    if width == 0 || height == 0 {
+        let error = ParameterError::from_kind(ParameterErrorKind::DimensionMismatch);
+        return Err(ImageError::Parameter(error));
+    }
+    Ok(())
 }
 
 /// The decoder allocates the size that a frame declares, even if the
@@ -524,7 +555,7 @@ fn check_gif_frames(data: &[u8]) -> image::ImageResult<()> {
             0x2C => {
                 let width = byte(pos + 5) | byte(pos + 6) << 8;
                 let height = byte(pos + 7) | byte(pos + 8) << 8;
-                Limits::default().reserve(width as u64 * height as u64 * 4)?;
+                check_size((width as u32, height as u32))?;
                 pos = pos + 10 + color_table(byte(pos + 9)) + 1;
             }
             0x21 => pos = pos + 2,
@@ -539,11 +570,13 @@ fn check_gif_frames(data: &[u8]) -> image::ImageResult<()> {
 }
 
 fn to_frames(frames: Frames) -> image::ImageResult<Image> {
-    let mut limits = Limits::default();
+    let mut pixels = 0;
     let mut out_frames = vec![];
     for frame in frames {
         let frame = frame?;
-        limits.reserve_usize(frame.buffer().len())?;
+        let (width, height) = frame.buffer().dimensions();
+        pixels = pixels + width as u64 * height as u64;
+        check_pixels(pixels)?;
         out_frames.push(to_frame(
             frame.delay().numer_denom_ms(),
             &frame.into_buffer(),
-- 
2.43.0


From b7e0ba984616259d407466739632cd698902188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:49 +0000
Subject: [PATCH 36/40] fix: an error, not a panic, for source files included
 in C headers

---
 src/asm.rs | 9 ++++-----
 src/lib.rs | 6 ++++++
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 53076a9..142edf7 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -157,11 +157,9 @@ fn replace_byte_includes(
     for statement in statements.iter() {
         if let Statement::Directive(Directive::Include(span, typ, path)) = statement {
             match typ {
-                IncludeType::Asm => {
-                    panic!("There should be no ASM .includes at this stage.");
-                }
-                IncludeType::CHeader => {
-                    panic!("There should be no C Header .includes at this stage.");
+                IncludeType::Asm | IncludeType::CHeader => {
+                    // Source files are included before, except in headers
+                    return Err(AssemblyError::IncludeInHeader(span.clone()));
                 }
                 IncludeType::Bytes => {
                     let bytes = files::load_bytes(&files.path(Some(filename), &path))?;
@@ -483,6 +481,7 @@ pub enum AssemblyError {
     IndirectionModeNotAllowedHere(Span),
     NoSuchMacro(Span, String),
     NestedTooDeeply(Span, &'static str),
+    IncludeInHeader(Span),
     InvalidSpriteType(Span, String),
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index 0e4c842..3bea8c0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -775,6 +775,12 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
             stderr.writeln("Invalid Expression").newline();
             highlight_line(&loc.to_span(), "", files, stderr);
         }
+        IncludeInHeader(span) => {
+            stderr
+                .writeln("Source files can't be included in a C header.")
+                .newline();
+            highlight_line(&span, "", files, stderr);
+        }
         NestedTooDeeply(span, what) => {
             stderr
                 .write(what)
-- 
2.43.0


From d8652334de944038ed8a6247d4216a648b473d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:57 +0000
Subject: [PATCH 37/40] fix: decoding an empty sequence as an instruction
 returns None instead of panicking

---
 src/instruction.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/instruction.rs b/src/instruction.rs
index 394fe6e..1c930a9 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -237,6 +237,9 @@ pub enum Instr<Ex, IM> {
 
 impl Instr<i32, u8> {
     pub fn decode(bytes: &[u8]) -> Option<Instr<i32, u8>> {
+        if bytes.is_empty() {
+            return None;
+        }
         Instr::<i32, u8>::decode_raw(bytes).map(|instr| decode_from_raw(instr))
     }
 }
-- 
2.43.0


From 73847da170dbd54d065ab985d28259d333f51814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:10 +0000
Subject: [PATCH 38/40] fix: finding a loaded file took time proportional to
 the number of files

---
 src/files.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/files.rs b/src/files.rs
index cf02fe7..86c4a10 100644
--- a/src/files.rs
+++ b/src/files.rs
@@ -1,4 +1,5 @@
 use std;
+use std::collections::HashMap;
 use std::fmt;
 
 use std::fs::File;
@@ -54,6 +55,7 @@ impl SourceFile {
 pub struct SourceFiles {
     working_dir: PathBuf,
     files: Vec<SourceFile>,
+    ids: HashMap<PathBuf, FileID>,
 }
 
 pub fn file_exists(path: impl AsRef<Path>) -> bool {
@@ -113,6 +115,7 @@ impl SourceFiles {
         SourceFiles {
             working_dir,
             files: vec![],
+            ids: HashMap::new(),
         }
     }
 
@@ -129,13 +132,7 @@ impl SourceFiles {
     }
 
     pub fn get_id(&self, filename: impl AsRef<Path>) -> Option<FileID> {
-        let filename = filename.as_ref();
-        for (idx, file) in self.files.iter().enumerate() {
-            if &file.name == filename {
-                return Some(FileID { value: idx });
-            }
-        }
-        None
+        self.ids.get(filename.as_ref()).copied()
     }
 
     pub fn get(&self, filename: &str) -> Option<&str> {
@@ -196,6 +193,7 @@ impl SourceFiles {
                     name: path.to_owned(),
                     contents,
                 };
+                self.ids.insert(path, file.id);
                 self.files.push(file);
                 Ok(&self.files[id_value])
             }
-- 
2.43.0


From 37b9cb35e12798bc708ba30e4df2fa6d86769115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:00 +0000
Subject: [PATCH 39/40] fix: report text after an included C header instead of
 dropping it

---
 src/asm.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/asm.rs b/src/asm.rs
index 142edf7..03cfeb5 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -103,6 +103,9 @@ fn replace_includes(
                                 cheader::lex_input(&input)?
                             };
                             results.append(&mut new_tokens);
+                            if !stream.is_empty() {
+                                return Err(AssemblyError::UnexpectedToken(stream.next()?));
+                            }
                         }
                         IncludeType::Bytes | IncludeType::Icon(_, _) | IncludeType::Sprite(..) => {
                             let mut path = Some(path);
-- 
2.43.0


From da7d41245557da35d8b05c38c44933dc2ff9f76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:59 +0000
Subject: [PATCH 40/40] fix: reject unknown and repeated properties of an
 included icon or sprite instead of ignoring them

---
 src/parser.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3359040..00e34b1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -523,10 +523,17 @@ impl Parser {
     pub fn parse_keyval_pairs(
         &self,
         tokens: &mut TokenStream,
+        known: &[&str],
     ) -> Result<HashMap<String, ByteValue>, ParseError> {
         let pairs = self.parse_list(tokens, |t| self.parse_keyval_pair(t))?;
         let mut map = HashMap::new();
-        for ((_, n), b) in pairs {
+        for ((span, n), b) in pairs {
+            if !known.contains(&n.as_str()) || map.contains_key(&n) {
+                return Err(ParseError::UnexpectedToken(Token::new(
+                    TokenType::Name(n),
+                    span,
+                )));
+            }
             map.insert(n, b);
         }
         Ok(map)
@@ -627,7 +634,8 @@ impl Parser {
                         if tokens.check(|tok| tok.has_name("icon")) {
                             tokens.read_name()?;
                             let (str_span, string) = tokens.read_string()?;
-                            let properties = self.parse_keyval_pairs(tokens)?;
+                            let properties =
+                                self.parse_keyval_pairs(tokens, &["speed", "eyecatch"])?;
                             let speed = match properties.get("speed") {
                                 Some(ByteValue::Expr(expr)) => Some(expr.clone()),
                                 Some(bv) => {
@@ -646,7 +654,8 @@ impl Parser {
                         } else if tokens.check(|tok| tok.has_name("sprite")) {
                             tokens.read_name()?;
                             let (str_span, string) = tokens.read_string()?;
-                            let properties = self.parse_keyval_pairs(tokens)?;
+                            let properties =
+                                self.parse_keyval_pairs(tokens, &["type", "header"])?;
                             let typ = match properties.get("type") {
                                 Some(ByteValue::String(span, ref value)) => {
                                     let value_str = std::str::from_utf8(value).unwrap();
-- 
2.43.0

