From 8c58a0e4234cc47592c70b344f278dbd87d7243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 01/15] fix: parsing an empty input returns an error instead of
 panicking

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index dd92346..34f19b3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -566,7 +566,8 @@ impl ParseError {
             kind: ErrorKind::UnexpectedEndOfExpression,
             // - 1 because we want to point to the last character
             // (without it, we would point to a `None` value)
-            span: (parser.cursor - 1).into(),
+            // saturating because the input can be empty
+            span: parser.cursor.saturating_sub(1).into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
     }
-- 
2.43.0


From 19cfb38161c4867b1d5d742b3f719eaa8d88936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 02/15] fix: reject a chained factorial instead of building a
 binary `!`

`2!!3` was accepted as a binary operation which then panicked when
simplified or evaluated.
---
 src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 34f19b3..8166208 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -167,6 +167,10 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
         // Right-associative unary operators
         if self.consume_if_eq(b'!') {
             el = UnOp::new_element(Operator::Factorial, el);
+            // `!` isn't a binary operator and can't be chained
+            if self.next_trim() == Some(&b'!') {
+                yeet!(ParseError::new_unexpected_token(self, b'!'));
+            }
         }
 
         // BinOp with higher precedence
-- 
2.43.0


From b7918af952f810e7df3a0973bef7659f62d2044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 03/15] fix: don't simplify `a % 1` to 0, it is the fractional
 part of a

---
 src/element/simplify.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/element/simplify.rs b/src/element/simplify.rs
index 12c2151..f63b0ef 100644
--- a/src/element/simplify.rs
+++ b/src/element/simplify.rs
@@ -207,10 +207,6 @@ impl<'a> Simplify<'a> for BinOp<'a> {
             BinOp {
                 op: Modulo, rhs, ..
             } if rhs == Number(0.0) => Number(f64::NAN),
-            // a % 1 => 0
-            BinOp {
-                op: Modulo, rhs, ..
-            } if rhs == Number(1.0) => Number(0.0),
             // a % a => 0
             BinOp {
                 op: Modulo,
-- 
2.43.0


From f20dd6deabffab01e50f3f41ff9658aeecf5d010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 04/15] fix: don't simplify `0 ^ a` to 0, it is 1 for 0 and inf
 for negatives

---
 src/element/simplify.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/element/simplify.rs b/src/element/simplify.rs
index f63b0ef..c8072ec 100644
--- a/src/element/simplify.rs
+++ b/src/element/simplify.rs
@@ -180,8 +180,6 @@ impl<'a> Simplify<'a> for BinOp<'a> {
                 lhs,
                 rhs,
             } if lhs == Number(0.0) && rhs == Number(0.0) => Number(1.0),
-            // 0 ^ a => 0
-            BinOp { op: Power, lhs, .. } if lhs == Number(0.0) => Number(0.0),
             // a ^ 0 => 1
             BinOp {
                 op: Divide, rhs, ..
-- 
2.43.0


From de88804398063d8ca9fb056c3e442d680232a0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 05/15] fix: don't simplify `a / 0` to inf, its sign is the
 sign of a

The `a ^ 0 => 1` rule matched on `/` and was only unreachable because of
this rule, so it has to match on `^` now.
---
 src/element/simplify.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/element/simplify.rs b/src/element/simplify.rs
index c8072ec..bf5ea9f 100644
--- a/src/element/simplify.rs
+++ b/src/element/simplify.rs
@@ -141,10 +141,6 @@ impl<'a> Simplify<'a> for BinOp<'a> {
             BinOp {
                 op: Divide, lhs, ..
             } if lhs == Number(0.0) => Number(0.0),
-            // a / 0 => inf
-            BinOp {
-                op: Divide, rhs, ..
-            } if rhs == Number(0.0) => Number(f64::INFINITY),
             // a / 1 => a
             BinOp {
                 op: Divide,
@@ -181,9 +177,7 @@ impl<'a> Simplify<'a> for BinOp<'a> {
                 rhs,
             } if lhs == Number(0.0) && rhs == Number(0.0) => Number(1.0),
             // a ^ 0 => 1
-            BinOp {
-                op: Divide, rhs, ..
-            } if rhs == Number(0.0) => Number(1.0),
+            BinOp { op: Power, rhs, .. } if rhs == Number(0.0) => Number(1.0),
             // a ^ 1 => a
             BinOp {
                 op: Power,
-- 
2.43.0


From 94a01e727c184e47ea16fce5466051753cf41185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 06/15] fix: fold operations on two numbers before the
 algebraic rules

The algebraic rules gave other results than the evaluation for constant
operands: `-1 / -0`, `0 * (1 / 0)`, `0 % (0 / 0)`...
---
 src/element/simplify.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/element/simplify.rs b/src/element/simplify.rs
index bf5ea9f..8d53bb6 100644
--- a/src/element/simplify.rs
+++ b/src/element/simplify.rs
@@ -50,6 +50,24 @@ impl<'a> Simplify<'a> for BinOp<'a> {
         self.lhs = self.lhs.simplify();
         self.rhs = self.rhs.simplify();
         match self {
+            /////////////////////////// 2 Numbers ///////////////////////////
+            BinOp {
+                op,
+                rhs: Number(rhs),
+                lhs: Number(lhs),
+            } => {
+                #[allow(clippy::unreachable)]
+                let result = match op {
+                    Plus => lhs + rhs,
+                    Minus => lhs - rhs,
+                    Times => lhs * rhs,
+                    Divide => lhs / rhs,
+                    Power => lhs.powf(rhs),
+                    Modulo => lhs % rhs,
+                    Factorial => unreachable!(),
+                };
+                Number(result)
+            },
             /////////////////////////// Additions ///////////////////////////
             // 0 + a => a
             BinOp { op: Plus, lhs, rhs } if lhs == Number(0.0) => rhs,
@@ -205,24 +223,6 @@ impl<'a> Simplify<'a> for BinOp<'a> {
                 lhs,
                 rhs,
             } if lhs == rhs => Number(0.0),
-            /////////////////////////// 2 Numbers ///////////////////////////
-            BinOp {
-                op,
-                rhs: Number(rhs),
-                lhs: Number(lhs),
-            } => {
-                #[allow(clippy::unreachable)]
-                let result = match op {
-                    Plus => lhs + rhs,
-                    Minus => lhs - rhs,
-                    Times => lhs * rhs,
-                    Divide => lhs / rhs,
-                    Power => lhs.powf(rhs),
-                    Modulo => lhs % rhs,
-                    Factorial => unreachable!(),
-                };
-                Number(result)
-            },
             _ => self.into(),
         }
     }
-- 
2.43.0


From 8f03203531b8cf3283ba2885df757df2ea2e24b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 07/15] fix: juxtaposed numbers are an error wherever they
 appear

Whether a number could start an implicit multiplication was decided on the
element parsed so far, hence `2+3 5` was read as `(2+3)*5`, and `(1+1)3` was
accepted or not depending on `compile-time-optimizations` having folded
`(1+1)`. It now only depends on the previous token being a number.
---
 src/parser.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8166208..2f06ba0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -116,6 +116,8 @@ struct ParserImpl<'input, 'ctx> {
     input: &'input [u8],
     /// The current cursor position in the input expression.
     cursor: usize,
+    /// The position of the end of the last number parsed.
+    number_end: Option<usize>,
     /// The context of the parser.
     ctx: &'ctx Context<'ctx>,
 }
@@ -126,6 +128,7 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
         Self {
             input: input.as_bytes(),
             cursor: 0,
+            number_end: None,
             ctx,
         }
     }
@@ -175,7 +178,7 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
 
         // BinOp with higher precedence
         while let Some((op, op_precedence)) =
-            self.get_operator_infos(&el, precedence)
+            self.get_operator_infos(precedence)
         {
             let rhs = self.element(op_precedence)?;
             el = BinOp::new_element(op, el, rhs);
@@ -310,6 +313,7 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
             #[cold]
             |_err| ParseError::new_malformed_number(self, ident),
         )?;
+        self.number_end = Some(end);
 
         Ok(Element::Number(num))
     }
@@ -409,7 +413,6 @@ impl ParserImpl<'_, '_> {
     /// Returns the operator and its precedence if it's a valid operator.
     fn get_operator_infos(
         &mut self,
-        current_atom: &Element<'_>,
         precedence: usize,
     ) -> Option<(Operator, usize)> {
         use precedence::IMPLICIT_MULTIPLICATION_INFO;
@@ -433,14 +436,22 @@ impl ParserImpl<'_, '_> {
             // we can consider its an implicit multiplication
             b'a'..=b'z' | b'(' => Some(IMPLICIT_MULTIPLICATION_INFO),
             // if it's a number implicit multiplication is
-            // only possible if previous atom isn't a number
-            b'0'..=b'9' if !matches!(*current_atom, Element::Number(_)) => {
+            // only possible if it doesn't directly follow another number
+            b'0'..=b'9' if !self.is_after_number() => {
                 Some(IMPLICIT_MULTIPLICATION_INFO)
             },
             _ => None,
         }
     }
 
+    /// Returns `true` if there are only whitespaces between the last parsed
+    /// number and the cursor.
+    fn is_after_number(&self) -> bool {
+        self.number_end
+            .and_then(|end| self.input.get(end..self.cursor))
+            .is_some_and(|gap| gap.iter().all(u8::is_ascii_whitespace))
+    }
+
     /// Asserts that the next character is equal to the given one and consumes
     /// it if it is.
     fn assert_eq_consume(&mut self, tok: u8) -> Result<(), ParseError> {
-- 
2.43.0


From 41b24b5732704a1c53353fbf298de613ce6ef2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 08/15] fix: allow implicit multiplication by an identifier
 starting with an uppercase letter

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2f06ba0..75eadfe 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -434,7 +434,9 @@ impl ParserImpl<'_, '_> {
             _ if IMPLICIT_MULTIPLICATION_INFO.1 <= precedence => None,
             // if it's an identifier or an opening parenthesis
             // we can consider its an implicit multiplication
-            b'a'..=b'z' | b'(' => Some(IMPLICIT_MULTIPLICATION_INFO),
+            b'a'..=b'z' | b'A'..=b'Z' | b'(' => {
+                Some(IMPLICIT_MULTIPLICATION_INFO)
+            },
             // if it's a number implicit multiplication is
             // only possible if it doesn't directly follow another number
             b'0'..=b'9' if !self.is_after_number() => {
-- 
2.43.0


From 3a7b069bc3371a31d0897c1614baed9bc4a4075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 09/15] fix: allow function calls without arguments

The documentation gives the results of `min()`, `max()`, `sum()` and `mean()`
and `xprs_fn!` accepts functions of 0 arguments, none of which could be called.
---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 75eadfe..e7a1e61 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -250,8 +250,6 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
             Identifier::Constant(val) => Element::Number(val),
             Identifier::Variable(var) => Element::Variable(var),
             Identifier::Function(func) if self.consume_if_eq(b'(') => {
-                // for now the minimum number of arguments is 1
-                // self.parse_arguments() will fail if no argument is found
                 let args = self.parse_arguments()?;
                 self.assert_eq_consume(b')')?;
                 if let Some(nb_args) = func.nb_args {
@@ -322,6 +320,11 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
     fn parse_arguments(&mut self) -> Result<Vec<Element<'input>>, ParseError> {
         let mut args = Vec::new();
 
+        // no arguments
+        if self.next_trim() == Some(&b')') {
+            return Ok(args);
+        }
+
         loop {
             let arg = self.argument()?;
             args.push(arg);
-- 
2.43.0


From 8042406768493c035047525124c5a1cbafc716a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 10/15] fix: report whole characters in parse errors
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Errors on a non-ASCII character displayed its first byte as a Latin-1
character (`Ã` for `é`), and the label of a missing argument could end in the
middle of a character.
---
 src/parser.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e7a1e61..623785a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -397,6 +397,16 @@ impl ParserImpl<'_, '_> {
         self.input.get(self.cursor)
     }
 
+    /// Returns the whole character, which may be more than a byte, at the
+    /// cursor. Or `tok` if there is none.
+    #[cold]
+    fn current_char(&self, tok: u8) -> char {
+        self.input
+            .get(self.cursor..)
+            .and_then(|rest| str::from_utf8(rest).ok()?.chars().next())
+            .unwrap_or_else(|| char::from(tok))
+    }
+
     /// Returns the current character after trimming whitespaces.
     fn next_trim(&mut self) -> Option<&u8> {
         self.skip_while(u8::is_ascii_whitespace);
@@ -596,7 +606,7 @@ impl ParseError {
     #[cold]
     fn new_unexpected_token(parser: &ParserImpl, tok: u8) -> Self {
         Self {
-            kind: ErrorKind::UnexpectedToken(char::from(tok)),
+            kind: ErrorKind::UnexpectedToken(parser.current_char(tok)),
             span: parser.cursor.into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
@@ -617,7 +627,7 @@ impl ParseError {
     #[cold]
     fn new_illegal_character(parser: &ParserImpl, tok: u8) -> Self {
         Self {
-            kind: ErrorKind::IllegalCharacter(char::from(tok)),
+            kind: ErrorKind::IllegalCharacter(parser.current_char(tok)),
             span: parser.cursor.into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
@@ -685,7 +695,8 @@ impl ParseError {
     fn new_missing_argument(parser: &ParserImpl) -> Self {
         Self {
             kind: ErrorKind::MissingArgument,
-            span: (parser.cursor - 1, 2).into(),
+            span: (parser.cursor - 1, 1 + parser.current_char(b')').len_utf8())
+                .into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
     }
-- 
2.43.0


From 8ac8e1594c438de8aafc48d9386f656bf9ca1a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 11/15] fix: count missing variables without overflow when
 binding

Binding panicked, or succeeded without overflow checks, with 256 missing variables.
---
 src/xprs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index 3ef4b7f..c8df651 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -747,7 +747,7 @@ impl BindError {
         missing_vars: Difference<'_, &str, RandomState>,
     ) -> Option<Self> {
         let mut peekable = missing_vars.peekable();
-        let mut count: u8 = 0;
+        let mut count: usize = 0;
         let mut missing_vars_str = String::new();
         while let Some(missing_var) = peekable.next() {
             count += 1;
-- 
2.43.0


From d8135dd6e9c2dbc64fd50cf1c1ac79ffce2797cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 12/15] fix: simplifying doesn't drop the expression twice if a
 function panics

`ptr::read` left a second owner of the root element behind, which was dropped
again if a user defined function panicked during the simplification.
---
 src/xprs.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index c8df651..4a3bfb4 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -1,17 +1,14 @@
 /* Clippy Config */
 #![allow(clippy::std_instead_of_core)]
 /* Built-in imports */
-use core::{fmt, ptr};
+use core::fmt;
 use std::collections::{HashMap, HashSet};
 /* Crate imports */
 use crate::{
     element::Element,
     element::Simplify,
     token::Operator,
-    utils::{
-        factorial::factorial,
-        hidden_macros::{trust_me, yeet},
-    },
+    utils::{factorial::factorial, hidden_macros::yeet},
 };
 
 /// Represents a mathematical expression and its variables.
@@ -141,9 +138,7 @@ impl Xprs<'_> {
     /// ```
     #[inline]
     pub fn simplify_for_in_place(&mut self, var: (&str, f64)) {
-        let mut tmp = trust_me!(ptr::read(&self.root));
-        tmp = tmp.simplify_for(var);
-        trust_me!(ptr::write(&mut self.root, tmp););
+        self.root = self.root.clone().simplify_for(var);
         self.vars.remove(var.0);
     }
 
@@ -217,13 +212,15 @@ impl Xprs<'_> {
     /// ```
     #[inline]
     pub fn simplify_for_multiple_in_place(&mut self, vars: &[(&str, f64)]) {
-        // rewriting `simplify_for_in_place` to avoid dozens of `ptr::read` and `ptr::write`
-        let mut tmp = trust_me!(ptr::read(&self.root));
+        // rewriting `simplify_for_in_place` to avoid dozens of clones
+        let mut tmp = self.root.clone();
         for &var in vars {
             tmp = tmp.simplify_for(var);
-            self.vars.remove(var.0);
         }
-        trust_me!(ptr::write(&mut self.root, tmp););
+        self.root = tmp;
+        for &(name, _) in vars {
+            self.vars.remove(name);
+        }
     }
 
     /// Simplifies the expression in-place for multiple variables and returns the expression.
-- 
2.43.0


From b3bebeda64b50728ea0be41cf31c658a6f85a848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 13/15] fix: forget variables that a simplification removed
 from the expression

Simplifying `x * y` for `x = 0` gives `0` but `y` was still listed, hence
binding the expression without `y` failed.
---
 src/xprs.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index 4a3bfb4..6016cb9 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -139,7 +139,13 @@ impl Xprs<'_> {
     #[inline]
     pub fn simplify_for_in_place(&mut self, var: (&str, f64)) {
         self.root = self.root.clone().simplify_for(var);
-        self.vars.remove(var.0);
+        self.update_vars();
+    }
+
+    /// Updates the set of variables to the ones still in the expression.
+    fn update_vars(&mut self) {
+        self.vars.clear();
+        self.root.find_variables(&mut self.vars);
     }
 
     /// Simple wrapper around [`Xprs::eval`] that doesn't require any variables.
@@ -218,9 +224,7 @@ impl Xprs<'_> {
             tmp = tmp.simplify_for(var);
         }
         self.root = tmp;
-        for &(name, _) in vars {
-            self.vars.remove(name);
-        }
+        self.update_vars();
     }
 
     /// Simplifies the expression in-place for multiple variables and returns the expression.
-- 
2.43.0


From 74d8bb3affcf42dc0102e9aaa7c687be38442079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 14/15] fix: display expressions so that they read as what they
 are

`x!` was displayed as `(!x)`, which isn't valid, and `(-2)^x` as `(-2 ^ x)`
once its operand was folded, which reads as `-(2^x)`.
---
 src/element/binop.rs | 16 +++++++++++++++-
 src/element/unop.rs  | 13 ++++++++++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/element/binop.rs b/src/element/binop.rs
index 16eda9a..30ed219 100644
--- a/src/element/binop.rs
+++ b/src/element/binop.rs
@@ -32,7 +32,21 @@ impl<'a> BinOp<'a> {
 
 impl fmt::Display for BinOp<'_> {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(fmt, "({} {} {})", self.lhs, self.op, self.rhs)
+        match self.lhs {
+            // `-2 ^ x` is `-(2 ^ x)`
+            Element::Number(num)
+                if self.op == Operator::Power && num.is_sign_negative() =>
+            {
+                write!(fmt, "(({num}) {} {})", self.op, self.rhs)
+            },
+            Element::Number(_)
+            | Element::BinOp(_)
+            | Element::UnOp(_)
+            | Element::Function(_)
+            | Element::Variable(_) => {
+                write!(fmt, "({} {} {})", self.lhs, self.op, self.rhs)
+            },
+        }
     }
 }
 
diff --git a/src/element/unop.rs b/src/element/unop.rs
index b2c7565..12da8da 100644
--- a/src/element/unop.rs
+++ b/src/element/unop.rs
@@ -29,6 +29,17 @@ impl<'a> UnOp<'a> {
 
 impl fmt::Display for UnOp<'_> {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(fmt, "({}{})", self.op, self.operand)
+        match (self.op, &self.operand) {
+            // `-2!` is `-(2!)`
+            (Operator::Factorial, &Element::Number(num))
+                if num.is_sign_negative() =>
+            {
+                write!(fmt, "(({num}){})", self.op)
+            },
+            (Operator::Factorial, operand) => {
+                write!(fmt, "({operand}{})", self.op)
+            },
+            (op, operand) => write!(fmt, "({op}{operand})"),
+        }
     }
 }
-- 
2.43.0


From e62e66f220689449122619af328bc13486c658bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 15/15] fix: leave the REPL at the end of the input

---
 src/bin/repl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/repl.rs b/src/bin/repl.rs
index 55c4100..c2541da 100644
--- a/src/bin/repl.rs
+++ b/src/bin/repl.rs
@@ -24,7 +24,9 @@ fn main() -> Result<(), Box<dyn Error>> {
     loop {
         print!(">> ");
         io::stdout().lock().flush()?;
-        io::stdin().read_line(&mut input)?;
+        if io::stdin().read_line(&mut input)? == 0 {
+            break; // end of input
+        }
         match &input {
             line if line.trim() == "exit" => break,
             line => match parser.parse(line) {
-- 
2.43.0

