From 9a96aa7f34399ccf92c1d20785abe412f6354d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 01/24] fix: a prefix operator on a group or function call
 takes only that operand

---
 prexel/src/evaluator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 8c82f77..4675f73 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -552,6 +552,11 @@ mod shunting_yard {
                 output.push(operators.pop().unwrap());
             } else {
                 let top_operator = match t {
+                    // A pending prefix operator already has its whole operand: -(5)+3
+                    Token::UnaryOperator(_) => {
+                        output.push(operators.pop().unwrap());
+                        continue;
+                    }
                     Token::BinaryOperator(op) => context.get_binary_function(op),
                     _ => {
                         break;
-- 
2.43.0


From 46d57de96be9e6113a97932e9a34c2aa74b59be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 02/24] fix: a call without arguments takes no value of the
 surrounding expression

---
 prexel/src/evaluator.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 4675f73..7dc492d 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -236,10 +236,10 @@ where
                     match values.pop() {
                         Some(n) => args.push(n.clone()),
                         None => {
-                            Error::new(
+                            return Err(Error::new(
                                 ErrorKind::InvalidArgumentCount,
                                 format!("expected {} arguments but {} was get", n, args.len()),
-                            );
+                            ));
                         }
                     }
                 }
@@ -365,7 +365,16 @@ mod shunting_yard {
                     }
                 }
                 Token::GroupingClose(c) => {
-                    push_grouping_close(context, *c, &mut output, &mut operators, &mut arg_count)?;
+                    // A call as `Random()` takes no values
+                    let is_empty = pos > 0 && tokens[pos - 1].is_grouping_open();
+                    push_grouping_close(
+                        context,
+                        *c,
+                        is_empty,
+                        &mut output,
+                        &mut operators,
+                        &mut arg_count,
+                    )?;
 
                     // Checking for empty grouping symbols: eg: `Random(())`, `()+2`
                     if pos > 1 {
@@ -588,6 +597,7 @@ mod shunting_yard {
     fn push_grouping_close<'a, N: Clone + Debug>(
         context: &impl Context<'a, N>,
         group_close: char,
+        is_empty: bool,
         output: &mut Vec<Token<N>>,
         operators: &mut Vec<Token<N>>,
         arg_count: &mut Vec<usize>,
@@ -607,7 +617,8 @@ mod shunting_yard {
                             // So we pop the argument count and function token into the output stack.
                             if !arg_count.is_empty() {
                                 if let Some(Token::Function(_)) = operators.last() {
-                                    let count = arg_count.pop().unwrap() + 1;
+                                    let commas = arg_count.pop().unwrap();
+                                    let count = if is_empty { 0 } else { commas + 1 };
                                     output.push(Token::ArgCount(count));
                                     output.push(operators.pop().unwrap());
                                 }
-- 
2.43.0


From 2f7e742f05723ae63969341a8fc175b4e2a21587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 03/24] fix: an operator behind a token that starts with a
 multi-byte character does not panic

---
 prexel/src/tokenizer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index dca715d..21cb9cb 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -232,9 +232,9 @@ where
                 }
 
                 // 10! - 2
-                if context.is_unary_function(&prev_str[..1])
-                    && !context.is_binary_function(&prev_str[..1])
-                {
+                let first_len = prev_str.chars().next().map_or(0, char::len_utf8);
+                let first = &prev_str[..first_len];
+                if context.is_unary_function(first) && !context.is_binary_function(first) {
                     return false;
                 }
 
-- 
2.43.0


From 9ac4af6ae9225cec658b95fb616f878268d042fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 04/24] fix: any history size works, also 0 and sizes that
 cannot be allocated up front

---
 eval/src/collections/carray.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eval/src/collections/carray.rs b/eval/src/collections/carray.rs
index aab30bc..3303c16 100644
--- a/eval/src/collections/carray.rs
+++ b/eval/src/collections/carray.rs
@@ -12,12 +12,16 @@ pub struct CircularArray<T> {
 impl<T> CircularArray<T> {
     pub fn new(capacity: usize) -> CircularArray<T> {
         CircularArray {
-            data: Vec::with_capacity(capacity),
+            data: Vec::new(),
             cap: capacity
         }
     }
 
     pub fn push(&mut self, item: T) {
+        if self.cap == 0 {
+            return;
+        }
+
         if self.data.len() == self.cap {
             self.data.remove(0);
         }
-- 
2.43.0


From 07870cdafa3c400bbc02e614d3c07d0bef5a6424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 05/24] fix: a comparison is not taken for an assignment in the
 interactive session

---
 eval/src/repl/mod.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/eval/src/repl/mod.rs b/eval/src/repl/mod.rs
index 1bfde3f..431e8eb 100644
--- a/eval/src/repl/mod.rs
+++ b/eval/src/repl/mod.rs
@@ -88,7 +88,7 @@ fn eval_loop<'a, N, F>(config: ReplConfig, factory: F)
             }
 
             // Assign a variable
-            _ if expression.contains('=') => {
+            _ if is_assignment(expression) => {
                 let parts = expression
                     .split('=')
                     .map(|s| s.trim().to_owned())
@@ -130,6 +130,23 @@ fn eval_loop<'a, N, F>(config: ReplConfig, factory: F)
     });
 }
 
+/// Checks for a `=` that is not part of a comparison operator: `==`, `!=`, `<=`, `>=`
+fn is_assignment(expression: &str) -> bool {
+    let mut rest = expression;
+
+    while let Some(pos) = rest.find('=') {
+        if rest[pos + 1..].starts_with('=') {
+            rest = &rest[pos + 2..];
+        } else if rest[..pos].ends_with(&['!', '<', '>'][..]) {
+            rest = &rest[pos + 1..];
+        } else {
+            return true;
+        }
+    }
+
+    false
+}
+
 fn repl_tokenizer<'a, N>(is_binary: bool) -> Tokenizer<'a, N>
     where
         N: FromStr + Clone + Display + Debug + 'a,
-- 
2.43.0


From 7f3a397159962b5bb4ce9d29b15619f06ef32d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 06/24] fix: no line is acted on after the session was
 interrupted

---
 eval/src/repl/repl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eval/src/repl/repl.rs b/eval/src/repl/repl.rs
index d446d0f..d6553bc 100644
--- a/eval/src/repl/repl.rs
+++ b/eval/src/repl/repl.rs
@@ -47,6 +47,11 @@ impl Repl {
                 continue;
             }
 
+            // The interrupt may have come while waiting for the event
+            if !running.load(Ordering::SeqCst) {
+                break;
+            }
+
             match event::read().unwrap() {
                 Event::Key(event) => match event.code {
                     KeyCode::Backspace => {
-- 
2.43.0


From 21eaa1ef90597599d5c95c4f02024f162e2893f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 07/24] fix: a name that means something else cannot be
 assigned in the interactive session

---
 eval/src/repl/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/eval/src/repl/mod.rs b/eval/src/repl/mod.rs
index 431e8eb..351bfe6 100644
--- a/eval/src/repl/mod.rs
+++ b/eval/src/repl/mod.rs
@@ -6,6 +6,7 @@ use prexel::complex::Complex;
 use prexel::context::{Context, DefaultContext};
 use prexel::evaluator::Evaluator;
 use prexel::num_traits::Zero;
+use prexel::token::Token;
 use prexel::tokenizer::Tokenizer;
 use prexel::utils::splitter::{DefaultSplitterBuilder, SplitWhitespaceOption};
 use prexel::utils::splitter::rules::{self, Outcome, SplitRule};
@@ -69,6 +70,7 @@ fn eval_loop<'a, N, F>(config: ReplConfig, factory: F)
 
     let is_binary = matches!(eval_type, EvalType::Binary);
     let tokenizer = repl_tokenizer(is_binary);
+    let name_tokenizer = repl_tokenizer::<N>(is_binary);
     let mut evaluator = Evaluator::with_context_and_tokenizer(context, tokenizer);
 
     let repl = ReplBuilder::new()
@@ -98,6 +100,20 @@ fn eval_loop<'a, N, F>(config: ReplConfig, factory: F)
                     writer.red().writeln_err("Invalid assignment");
                 } else {
                     let variable = &parts[0];
+                    let name_tokens = name_tokenizer.tokenize(evaluator.context(), variable);
+                    let is_valid_name = match name_tokens.as_deref() {
+                        Ok([Token::Constant(_)]) => true, // reported by `set_variable`
+                        Ok([token]) => token.is_variable() || token.is_unknown(),
+                        _ => false,
+                    };
+
+                    if !is_valid_name {
+                        writer
+                            .red()
+                            .writeln_err(format!("Invalid variable name: `{}`", variable));
+                        return None;
+                    }
+
                     match N::from_str(&parts[1]) {
                         Ok(value) => {
                             if let Err(err) = evaluator.mut_context().set_variable(variable, value)
-- 
2.43.0


From 8d6c7079fd2cb43b6f16992c7916c47f11b9e9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 08/24] fix: shifting a binary number by more bits than it has
 is an error instead of a panic

---
 prexel/src/binary/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/prexel/src/binary/mod.rs b/prexel/src/binary/mod.rs
index ddecd6a..b778335 100644
--- a/prexel/src/binary/mod.rs
+++ b/prexel/src/binary/mod.rs
@@ -102,6 +102,8 @@ pub fn binary_number_splitter<'a>() -> DefaultSplitter<'a> {
 
 pub mod math {
     use crate::binary::Binary;
+    use std::convert::TryFrom;
+    use crate::error::{Error, ErrorKind};
     use crate::function::{Associativity, BinaryFunction, Notation, Precedence, UnaryFunction};
 
     pub struct NotFunction;
@@ -395,7 +397,11 @@ pub mod math {
         }
 
         fn call(&self, left: Binary, right: Binary) -> crate::Result<Binary> {
-            Ok(Binary(left.0 >> right.0))
+            u32::try_from(right.0)
+                .ok()
+                .and_then(|n| left.0.checked_shr(n))
+                .map(Binary)
+                .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
         fn description(&self) -> Option<&str> {
@@ -422,7 +428,11 @@ pub mod math {
         }
 
         fn call(&self, left: Binary, right: Binary) -> crate::Result<Binary> {
-            Ok(Binary(left.0 << right.0))
+            u32::try_from(right.0)
+                .ok()
+                .and_then(|n| left.0.checked_shl(n))
+                .map(Binary)
+                .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
 
         fn description(&self) -> Option<&str> {
-- 
2.43.0


From 683ff6474cac4eabacfb863196b3aa00a21b3048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:05 +0000
Subject: [PATCH 09/24] fix: the factorial of a checked number reports an
 overflow, and ends for huge floats

---
 prexel/src/ops/checked.rs | 57 ++++++++++++++++++++++++++++++++++++++-
 prexel/src/ops/mod.rs     |  5 ++++
 2 files changed, 61 insertions(+), 1 deletion(-)

diff --git a/prexel/src/ops/checked.rs b/prexel/src/ops/checked.rs
index 6f6675c..a7c8ed2 100644
--- a/prexel/src/ops/checked.rs
+++ b/prexel/src/ops/checked.rs
@@ -1,9 +1,10 @@
-use num_traits::{FromPrimitive, Zero};
+use num_traits::{FromPrimitive, One, ToPrimitive, Zero};
 use crate::error::*;
 use crate::function::{
     Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction,
 };
 use crate::num::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedRem, CheckedSub};
+use crate::utils::gamma::gamma;
 use crate::Result;
 
 #[cfg(feature = "docs")]
@@ -162,6 +163,60 @@ impl<N: CheckedNeg> UnaryFunction<N> for UnaryMinus {
     }
 }
 
+pub struct Factorial;
+impl<N> UnaryFunction<N> for Factorial
+where
+    N: CheckedMul + CheckedSub + Clone + Zero + One + PartialOrd + ToPrimitive + FromPrimitive,
+{
+    fn name(&self) -> &str {
+        "!"
+    }
+
+    fn notation(&self) -> Notation {
+        Notation::Postfix
+    }
+
+    fn call(&self, value: N) -> Result<N> {
+        let overflow = || Error::from(ErrorKind::Overflow);
+
+        if value < N::zero() {
+            return Err(Error::from(ErrorKind::NegativeValue));
+        }
+
+        // 0! = 1 and 1! = 1
+        if value.is_zero() || value.is_one() {
+            return Ok(N::one());
+        }
+
+        let mut total = N::one();
+        let mut next = value;
+
+        while next >= N::one() {
+            total = total.checked_mul(&next).ok_or_else(overflow)?;
+            next = next.checked_sub(&N::one()).ok_or_else(overflow)?;
+
+            // The total of a floating point number stays infinite
+            if total.to_f64().map_or(false, f64::is_infinite) {
+                return Ok(total);
+            }
+        }
+
+        // If next value is non-zero, apply `Gamma function`.
+        if !next.is_zero() {
+            let total = total.to_f64().ok_or_else(overflow)?;
+            let n = next.to_f64().ok_or_else(overflow)?;
+            N::from_f64(total * gamma(n + 1f64)).ok_or_else(overflow)
+        } else {
+            Ok(total)
+        }
+    }
+
+    #[cfg(feature="docs")]
+    fn description(&self) -> Option<&str> {
+        Some(Description::Factorial.into())
+    }
+}
+
 pub struct AbsFunction;
 impl<N: Zero + PartialOrd + CheckedNeg + Clone> Function<N> for AbsFunction {
     fn name(&self) -> &str {
diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 52da326..b287038 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -399,6 +399,11 @@ mod math_ops {
             let mut next = total.clone() - N::one();
 
             while next >= N::one() {
+                // The total of a floating point number stays infinite
+                if total.to_f64().map_or(false, f64::is_infinite) {
+                    return Ok(total);
+                }
+
                 total = total.clone() * next.clone();
                 next = next.clone() - N::one();
             }
-- 
2.43.0


From 2253a95bdbe8bebdafe7479ac449abf9e93e49d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:22 +0000
Subject: [PATCH 10/24] fix: decimal functions report an overflow instead of
 panicking

---
 prexel/src/decimal/decimal_ext.rs | 53 +++++++++++++-----
 prexel/src/decimal/mod.rs         | 93 +++++++++----------------------
 2 files changed, 66 insertions(+), 80 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 4147b1f..943f2a8 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -10,6 +10,7 @@ pub trait DecimalExt {
     fn is_integer(&self) -> bool;
     fn to_radians(&self) -> Decimal;
     fn to_degrees(&self) -> Decimal;
+    fn checked_to_degrees(&self) -> Option<Decimal>;
     fn inv(self) -> Decimal;
     fn checked_inv(self) -> Option<Decimal>;
     fn checked_powd(self, exponent: Decimal) -> Option<Decimal>;
@@ -27,10 +28,12 @@ pub trait DecimalExt {
     fn acos(self) -> Option<Decimal>;
     fn atan(self) -> Decimal;
     fn atan2(self, other: Decimal) -> Decimal;
+    fn checked_atan2(self, other: Decimal) -> Option<Decimal>;
     fn sinh(self) -> Option<Decimal>;
     fn cosh(self) -> Option<Decimal>;
     fn tanh(self) -> Option<Decimal>;
     fn asinh(self) -> Decimal;
+    fn checked_asinh(self) -> Option<Decimal>;
     fn acosh(self) -> Option<Decimal>;
     fn atanh(self) -> Option<Decimal>;
 }
@@ -51,6 +54,11 @@ impl DecimalExt for Decimal {
         (self * (dec!(180) / consts::PI)).approx()
     }
 
+    #[inline]
+    fn checked_to_degrees(&self) -> Option<Decimal> {
+        self.checked_mul(dec!(180) / consts::PI).map(|d| d.approx())
+    }
+
     #[inline]
     fn inv(self) -> Decimal {
         consts::ONE / self
@@ -67,7 +75,7 @@ impl DecimalExt for Decimal {
 
     fn checked_powd(self, exponent: Decimal) -> Option<Decimal> {
         if exponent.is_integer() {
-            return self.checked_powi(exponent.to_i64().unwrap());
+            return self.checked_powi(exponent.to_i64()?);
         }
 
         if self.is_zero() {
@@ -99,7 +107,7 @@ impl DecimalExt for Decimal {
         }
 
         if exponent < 0 {
-            return Self::checked_powi(Decimal::one() / self, -exponent);
+            return Self::checked_powi(self.checked_inv()?, exponent.checked_neg()?);
         }
 
         let mut result = Decimal::one();
@@ -112,8 +120,11 @@ impl DecimalExt for Decimal {
                 exponent -= 1
             }
 
-            base = base.checked_mul(base)?;
             exponent >>= 1;
+
+            if exponent > 0 {
+                base = base.checked_mul(base)?;
+            }
         }
 
         Some(result)
@@ -284,7 +295,7 @@ impl DecimalExt for Decimal {
         }
 
         if !n.is_zero() {
-            result *= gamma(n + consts::ONE)?;
+            result = result.checked_mul(gamma(n + consts::ONE)?)?;
         }
 
         Some(result.round_dp(MAX_DECIMAL_PLACES))
@@ -472,11 +483,19 @@ impl DecimalExt for Decimal {
         }
     }
 
+    fn checked_atan2(self, x: Decimal) -> Option<Decimal> {
+        if !x.is_zero() {
+            self.checked_div(x)?;
+        }
+
+        Some(self.atan2(x))
+    }
+
     fn sinh(self) -> Option<Decimal> {
         // formula: sinh(x) = (e^x - e^-x)/2
         let e0 = self.checked_exp()?;
         let e1 = self.neg().checked_exp()?;
-        let result = (e0 - e1) / consts::TWO;
+        let result = e0.checked_sub(e1)? / consts::TWO;
         Some(result)
     }
 
@@ -484,19 +503,23 @@ impl DecimalExt for Decimal {
         // formula: cosh(x) = (e^x + e^-x)/2
         let e0 = self.checked_exp()?;
         let e1 = self.neg().checked_exp()?;
-        let result = (e0 + e1) / consts::TWO;
+        let result = e0.checked_add(e1)? / consts::TWO;
         Some(result)
     }
 
     fn tanh(self) -> Option<Decimal> {
-        let result = self.sinh()? / self.cosh()?;
-        Some(result)
+        self.sinh()?.checked_div(self.cosh()?)
     }
 
     fn asinh(self) -> Decimal {
         // formula: asinh(x) = ln(x + sqrt(x^2 + 1))
-        let x2 = self * self;
-        Decimal::checked_ln(self + Decimal::checked_sqrt(x2 + consts::ONE).unwrap()).unwrap()
+        self.checked_asinh().unwrap()
+    }
+
+    fn checked_asinh(self) -> Option<Decimal> {
+        let x2 = self.checked_mul(self)?;
+        let root = Decimal::checked_sqrt(x2.checked_add(consts::ONE)?)?;
+        Decimal::checked_ln(self.checked_add(root)?)
     }
 
     fn acosh(self) -> Option<Decimal> {
@@ -505,8 +528,8 @@ impl DecimalExt for Decimal {
         }
 
         // formula: acosh(x) = ln(x + sqrt(x^2 - 1))
-        let x2 = self * self;
-        Decimal::checked_ln(self + Decimal::checked_sqrt(x2 - consts::ONE)?)
+        let x2 = self.checked_mul(self)?;
+        Decimal::checked_ln(self.checked_add(Decimal::checked_sqrt(x2 - consts::ONE)?)?)
     }
 
     fn atanh(self) -> Option<Decimal> {
@@ -517,7 +540,7 @@ impl DecimalExt for Decimal {
         // formula: atanh(x) = 0.5 * ln((1 + x)/(1 - x))
         let x0 = consts::ONE + self;
         let x1 = consts::ONE - self;
-        Decimal::checked_ln(x0 / x1)?.checked_mul(consts::HALF)
+        Decimal::checked_ln(x0.checked_div(x1)?)?.checked_mul(consts::HALF)
     }
 }
 
@@ -569,7 +592,9 @@ fn gamma(mut x: Decimal) -> Option<Decimal> {
     // ~10^-13 precision
     // See: https://en.wikipedia.org/wiki/Lanczos_approximation
     if x < consts::HALF {
-        Some(consts::PI / Decimal::checked_sin(consts::PI * x)? * gamma(Decimal::one() - x)?)
+        consts::PI
+            .checked_div(Decimal::checked_sin(consts::PI * x)?)?
+            .checked_mul(gamma(Decimal::one() - x)?)
     } else {
         // Lanczos solve gamma for (x + 1)
         x -= Decimal::one();
diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index be3abc7..ffba8a1 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -142,30 +142,6 @@ macro_rules! forward_func_impl {
     };
 }
 
-#[cfg(not(feature = "docs"))]
-macro_rules! forward_func_inv_impl {
-    ($struct_name:ident, $method_name:ident, $name:ident) => {
-        impl Function<Decimal> for $struct_name {
-            #[inline]
-            fn name(&self) -> &str {
-                stringify!($name)
-            }
-
-            #[inline]
-            fn call(&self, args: &[Decimal]) -> Result<Decimal> {
-                match args.len() {
-                    1 => Ok(args[0].$method_name().inv()),
-                    _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
-                }
-            }
-        }
-    };
-
-    ($struct_name:ident, $method_name:ident) => {
-        forward_func_inv_impl!($struct_name, $method_name, $method_name);
-    };
-}
-
 #[cfg(feature = "docs")]
 macro_rules! forward_checked_func_impl {
     ($struct_name:ident, $method_name:ident, $name:ident, $description:expr) => {
@@ -256,34 +232,6 @@ macro_rules! forward_func_impl {
     };
 }
 
-#[cfg(feature = "docs")]
-macro_rules! forward_func_inv_impl {
-    ($struct_name:ident, $method_name:ident, $name:ident, $description:expr) => {
-        impl Function<Decimal> for $struct_name {
-            #[inline]
-            fn name(&self) -> &str {
-                stringify!($name)
-            }
-
-            #[inline]
-            fn call(&self, args: &[Decimal]) -> Result<Decimal> {
-                match args.len() {
-                    1 => Ok(args[0].$method_name().inv()),
-                    _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
-                }
-            }
-
-            fn description(&self) -> Option<&str> {
-                Some($description.into())
-            }
-        }
-    };
-
-    ($struct_name:ident, $method_name:ident, $description:expr) => {
-        forward_func_inv_impl!($struct_name, $method_name, $method_name, $description);
-    };
-}
-
 pub mod ops {
     pub use super::math_ops::*;
     pub use super::trig_ops::*;
@@ -539,7 +487,10 @@ mod math_ops {
                 match result {
                     None => result = Some(*cur),
                     Some(ref n) => {
-                        result = Some(*n + *cur);
+                        result = Some(
+                            n.checked_add(*cur)
+                                .ok_or_else(|| Error::from(ErrorKind::Overflow))?,
+                        );
                     }
                 }
             }
@@ -566,7 +517,10 @@ mod math_ops {
                 match result {
                     None => result = Some(*cur),
                     Some(ref n) => {
-                        result = Some(n * cur);
+                        result = Some(
+                            n.checked_mul(*cur)
+                                .ok_or_else(|| Error::from(ErrorKind::Overflow))?,
+                        );
                     }
                 }
             }
@@ -593,7 +547,10 @@ mod math_ops {
                 match sum {
                     None => sum = Some(*cur),
                     Some(ref n) => {
-                        sum = Some(*n + *cur);
+                        sum = Some(
+                            n.checked_add(*cur)
+                                .ok_or_else(|| Error::from(ErrorKind::Overflow))?,
+                        );
                     }
                 }
             }
@@ -690,9 +647,9 @@ mod math_ops {
 
     pub struct ToDegreesFunction;
     #[cfg(not(feature = "docs"))]
-    forward_func_impl!(ToDegreesFunction, to_degrees, to_degrees);
+    forward_checked_func_impl!(ToDegreesFunction, checked_to_degrees, to_degrees);
     #[cfg(feature = "docs")]
-    forward_func_impl!(ToDegreesFunction, to_degrees, to_degrees, Description::ToDegrees);
+    forward_checked_func_impl!(ToDegreesFunction, checked_to_degrees, to_degrees, Description::ToDegrees);
 }
 
 mod trig_ops {
@@ -945,8 +902,9 @@ mod trig_ops {
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
                         1 => args[0]
-                            .inv()
-                            .$method_name()
+                            .checked_inv()
+                            .map(|n| n.$method_name())
+                            .flatten()
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
@@ -1000,8 +958,9 @@ mod trig_ops {
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
                         1 => args[0]
-                            .inv()
-                            .$method_name()
+                            .checked_inv()
+                            .map(|n| n.$method_name())
+                            .flatten()
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
@@ -1041,7 +1000,9 @@ mod trig_ops {
         fn call(&self, args: &[Decimal]) -> Result<Decimal> {
             match args.len() {
                 1 => Ok(args[0].atan()),
-                2 => Ok(args[0].atan2(args[1])),
+                2 => args[0]
+                    .checked_atan2(args[1])
+                    .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                 _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
             }
         }
@@ -1110,9 +1071,9 @@ mod trig_ops {
     //////////////////// Inverse Hyperbolic Trigonometric ////////////////////
     pub struct ASinhFunction;
     #[cfg(not(feature = "docs"))]
-    forward_func_impl!(ASinhFunction, asinh);
+    forward_checked_func_impl!(ASinhFunction, checked_asinh, asinh);
     #[cfg(feature = "docs")]
-    forward_func_impl!(ASinhFunction, asinh, Description::ASinh);
+    forward_checked_func_impl!(ASinhFunction, checked_asinh, asinh, Description::ASinh);
 
     pub struct ACoshFunction;
     #[cfg(not(feature = "docs"))]
@@ -1128,9 +1089,9 @@ mod trig_ops {
 
     pub struct ACschFunction;
     #[cfg(not(feature = "docs"))]
-    forward_func_inv_impl!(ACschFunction, asinh, acsch);
+    forward_checked_func_inv_impl!(ACschFunction, checked_asinh, acsch);
     #[cfg(feature = "docs")]
-    forward_func_inv_impl!(ACschFunction, asinh, acsch, Description::ACsch);
+    forward_checked_func_inv_impl!(ACschFunction, checked_asinh, acsch, Description::ACsch);
 
     pub struct ASechFunction;
     #[cfg(not(feature = "docs"))]
-- 
2.43.0


From 2d732854f8c4c105e4ec7eed6735ba42548f3c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 11/24] fix: the request limit counts a client by its address,
 over all its connections and all workers

---
 prexel-server/src/main.rs                     | 13 ++++++++-----
 prexel-server/src/middlewares/rate_limiter.rs |  7 ++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/prexel-server/src/main.rs b/prexel-server/src/main.rs
index 9f64cab..90918bc 100644
--- a/prexel-server/src/main.rs
+++ b/prexel-server/src/main.rs
@@ -30,11 +30,16 @@ async fn main() -> std::io::Result<()> {
         .flatten()
         .unwrap_or(8000);
 
+    // All the workers count the requests of a client together
+    let rate_limit_store = MemoryStoreActor::from(MemoryStore::new()).start();
+
     HttpServer::new(move || {
         App::new()
             .wrap(Logger::default())
             .wrap(NormalizePath::new(TrailingSlash::Trim))
-            .wrap(get_rate_limit_middleware())
+            .wrap(configure_rate_limiter(RateLimiter::new(
+                rate_limit_store.clone(),
+            )))
             .wrap_fn(|mut req, srv| {
                 let has_id = get_rate_limit_identifier(&req).is_some();
                 let mut cookie: Option<Cookie> = None;
@@ -87,13 +92,11 @@ async fn main() -> std::io::Result<()> {
     .await
 }
 
-fn get_rate_limit_middleware() -> RateLimiter<MemoryStoreActor> {
+fn configure_rate_limiter(limiter: RateLimiter<MemoryStoreActor>) -> RateLimiter<MemoryStoreActor> {
     const MAX_REQUESTS: usize = 100;
     const TIME_BETWEEN_REQUESTS: Duration = Duration::from_secs(60);
 
-    let store = MemoryStore::new();
-
-    RateLimiter::new(MemoryStoreActor::from(store).start())
+    limiter
         .with_interval(TIME_BETWEEN_REQUESTS)
         .with_max_requests(MAX_REQUESTS)
         .with_identifier(|req| match get_rate_limit_identifier(req) {
diff --git a/prexel-server/src/middlewares/rate_limiter.rs b/prexel-server/src/middlewares/rate_limiter.rs
index c339a68..284bf08 100644
--- a/prexel-server/src/middlewares/rate_limiter.rs
+++ b/prexel-server/src/middlewares/rate_limiter.rs
@@ -6,13 +6,10 @@ pub const RATE_LIMIT_ID : &str = "X-Ratelimit-Id";
 
 pub fn get_rate_limit_identifier(req: &ServiceRequest) -> Option<String> {
     fn internal_get_identifier(req: &ServiceRequest) -> Option<String> {
-        if let Some(remote_addr) = req.connection_info().remote_addr() {
-            return Some(remote_addr.to_string());
-        }
-
         // FIXME: Peer address can be trick with a proxy
+        // The port is not part of the identity, each connection of a client has its own
         if let Some(peer_addr) = req.peer_addr() {
-            return Some(peer_addr.to_string());
+            return Some(peer_addr.ip().to_string());
         }
 
         if let Some(cookie) = req.cookie(RATE_LIMIT_ID) {
-- 
2.43.0


From 58a652a3b4f16a4d1bb69dc4768a242075da6208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:46 +0000
Subject: [PATCH 12/24] fix: the variables of a request are set in a fixed
 order, its error does not depend on hashing

---
 prexel-server/src/models/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel-server/src/models/mod.rs b/prexel-server/src/models/mod.rs
index f200bf6..8df035c 100644
--- a/prexel-server/src/models/mod.rs
+++ b/prexel-server/src/models/mod.rs
@@ -1,4 +1,4 @@
-use std::{collections::HashMap, fmt::Display};
+use std::{collections::BTreeMap, fmt::Display};
 use serde::{Deserialize, Serialize};
 
 /// Represents the result of an evaluation.
@@ -45,7 +45,7 @@ pub enum NumberType {
 pub struct EvalExpression {
     pub expression: String,
     pub r#type: Option<NumberType>,
-    pub variables: Option<HashMap<String, Variable>>,
+    pub variables: Option<BTreeMap<String, Variable>>,
 }
 
 /// Represents the result to evaluate an expression.
-- 
2.43.0


From ae2561a82fe8c94335a7fa92c9cc551ab59d43fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:56 +0000
Subject: [PATCH 13/24] fix: anything behind the object of an evaluation
 request makes the request invalid

---
 prexel-server/src/endpoints/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prexel-server/src/endpoints/mod.rs b/prexel-server/src/endpoints/mod.rs
index aac1cb1..29ff0c6 100644
--- a/prexel-server/src/endpoints/mod.rs
+++ b/prexel-server/src/endpoints/mod.rs
@@ -27,7 +27,7 @@ pub async fn eval(req: HttpRequest, body: web::Bytes) -> ApiResponse {
     };
 
     let deserializer = &mut serde_json::Deserializer::from_str(&body);
-    let expr = match serde_path_to_error::deserialize(deserializer) {
+    let expr = match serde_path_to_error::deserialize(&mut *deserializer) {
         Ok(expr) => expr,
         Err(err) => {
             let path = err.path().to_string();
@@ -41,6 +41,12 @@ pub async fn eval(req: HttpRequest, body: web::Bytes) -> ApiResponse {
         }
     };
 
+    // Nothing but whitespace can follow the object
+    if deserializer.end().is_err() {
+        return Ok(HttpResponse::BadRequest()
+            .json(EvaluatedExpression::with_error("Invalid json".to_string())));
+    }
+
     let expression = expr;
     let eval_result = services::eval_expression(expression);
     let query = Query::<EvalParams>::from_query(req.query_string()).ok();
-- 
2.43.0


From ba719bc906bd2bedc0d60a3ad267b0db408fcd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:30 +0000
Subject: [PATCH 14/24] fix: a panic during an evaluation is answered with an
 error, the worker and its other connections stay

---
 prexel-server/src/services/evaluator.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/prexel-server/src/services/evaluator.rs b/prexel-server/src/services/evaluator.rs
index bff9fd7..79a495d 100644
--- a/prexel-server/src/services/evaluator.rs
+++ b/prexel-server/src/services/evaluator.rs
@@ -4,6 +4,7 @@ use prexel::complex;
 use prexel::context::{Config, Grouping};
 use prexel::tokenizer::Tokenizer;
 use prexel::{context::Context, context::DefaultContext, decimal::Decimal, evaluator::Evaluator};
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::str::FromStr;
 use std::string::ToString;
 use prexel::binary::{Binary, binary_number_splitter};
@@ -15,7 +16,13 @@ static CONFIG: Lazy<Config> = Lazy::new(|| {
         .with_implicit_mul(true)
 });
 
+/// Evaluates an expression, a panic during the evaluation is reported as an error of that expression.
 pub fn eval_expression(expression: EvalExpression) -> EvalResult {
+    catch_unwind(AssertUnwindSafe(|| eval_typed_expression(expression)))
+        .unwrap_or_else(|_| EvalResult::Err("The expression cannot be evaluated".to_string()))
+}
+
+fn eval_typed_expression(expression: EvalExpression) -> EvalResult {
     let r#type = expression.r#type.unwrap_or(NumberType::Decimal);
 
     match r#type {
-- 
2.43.0


From a8b10c0affdfbf4ed7c8972b6852361eea997d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:07 +0000
Subject: [PATCH 15/24] fix: the workers share the store of the request limit
 and each runs its own actor, so that none loses it at shutdown

---
 prexel-server/src/main.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/prexel-server/src/main.rs b/prexel-server/src/main.rs
index 90918bc..32733ff 100644
--- a/prexel-server/src/main.rs
+++ b/prexel-server/src/main.rs
@@ -31,15 +31,13 @@ async fn main() -> std::io::Result<()> {
         .unwrap_or(8000);
 
     // All the workers count the requests of a client together
-    let rate_limit_store = MemoryStoreActor::from(MemoryStore::new()).start();
+    let rate_limit_store = MemoryStore::new();
 
     HttpServer::new(move || {
         App::new()
             .wrap(Logger::default())
             .wrap(NormalizePath::new(TrailingSlash::Trim))
-            .wrap(configure_rate_limiter(RateLimiter::new(
-                rate_limit_store.clone(),
-            )))
+            .wrap(get_rate_limit_middleware(rate_limit_store.clone()))
             .wrap_fn(|mut req, srv| {
                 let has_id = get_rate_limit_identifier(&req).is_some();
                 let mut cookie: Option<Cookie> = None;
@@ -92,11 +90,11 @@ async fn main() -> std::io::Result<()> {
     .await
 }
 
-fn configure_rate_limiter(limiter: RateLimiter<MemoryStoreActor>) -> RateLimiter<MemoryStoreActor> {
+fn get_rate_limit_middleware(store: MemoryStore) -> RateLimiter<MemoryStoreActor> {
     const MAX_REQUESTS: usize = 100;
     const TIME_BETWEEN_REQUESTS: Duration = Duration::from_secs(60);
 
-    limiter
+    RateLimiter::new(MemoryStoreActor::from(store).start())
         .with_interval(TIME_BETWEEN_REQUESTS)
         .with_max_requests(MAX_REQUESTS)
         .with_identifier(|req| match get_rate_limit_identifier(req) {
-- 
2.43.0


From 868168dadbfb40dc2350176a3e974ca12425e0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 16/24] fix: a request that does not arrive completely within
 30 seconds is answered with a timeout instead of being kept for ever

---
 prexel-server/src/main.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/prexel-server/src/main.rs b/prexel-server/src/main.rs
index 32733ff..9c2f7d4 100644
--- a/prexel-server/src/main.rs
+++ b/prexel-server/src/main.rs
@@ -10,14 +10,19 @@ use actix_ratelimit::errors::ARError;
 use actix_ratelimit::{MemoryStore, MemoryStoreActor, RateLimiter};
 use actix_web::cookie::{Cookie, CookieBuilder};
 use actix_web::dev::Service;
+use actix_web::error::ErrorRequestTimeout;
 use actix_web::http::header::{COOKIE, SET_COOKIE};
 use actix_web::http::{HeaderMap, HeaderValue};
 use actix_web::middleware::normalize::TrailingSlash;
 use actix_web::middleware::{Logger, NormalizePath};
+use actix_web::rt::time::timeout;
 use actix_web::{App, HttpResponse, HttpServer};
 use std::env;
 use std::time::Duration;
 
+/// How long a client can take to send a request.
+const REQUEST_TIMEOUT: Duration = Duration::from_secs(30);
+
 pub type ApiResponse = Result<HttpResponse, HttpResponse>;
 
 #[actix_web::main]
@@ -60,9 +65,13 @@ async fn main() -> std::io::Result<()> {
                     cookie = Some(temp_cookie);
                 }
 
-                let fut = srv.call(req);
+                let fut = timeout(REQUEST_TIMEOUT, srv.call(req));
                 async move {
-                    let mut res = fut.await?;
+                    let mut res = match fut.await {
+                        Ok(res) => res?,
+                        // The client stopped sending in the middle of the request
+                        Err(_) => return Err(ErrorRequestTimeout("Request timeout")),
+                    };
 
                     if let Some(cookie) = cookie {
                         let headers: &mut HeaderMap = res.headers_mut();
-- 
2.43.0


From 4550a5931d492dfa97987d01b4c7246c9c4371c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:00 +0000
Subject: [PATCH 17/24] fix: a client without address gets an identity, not an
 internal error

---
 prexel-server/src/main.rs                     | 17 +++++++----------
 prexel-server/src/middlewares/rate_limiter.rs |  7 ++++++-
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/prexel-server/src/main.rs b/prexel-server/src/main.rs
index 9c2f7d4..b586163 100644
--- a/prexel-server/src/main.rs
+++ b/prexel-server/src/main.rs
@@ -4,19 +4,19 @@ mod models;
 mod services;
 
 use crate::middlewares::rate_limiter::{
-    generate_rate_limit_id, get_rate_limit_identifier, RATE_LIMIT_ID,
+    generate_rate_limit_id, get_rate_limit_identifier, AssignedRateLimitId, RATE_LIMIT_ID,
 };
 use actix_ratelimit::errors::ARError;
 use actix_ratelimit::{MemoryStore, MemoryStoreActor, RateLimiter};
 use actix_web::cookie::{Cookie, CookieBuilder};
 use actix_web::dev::Service;
 use actix_web::error::ErrorRequestTimeout;
-use actix_web::http::header::{COOKIE, SET_COOKIE};
+use actix_web::http::header::SET_COOKIE;
 use actix_web::http::{HeaderMap, HeaderValue};
 use actix_web::middleware::normalize::TrailingSlash;
 use actix_web::middleware::{Logger, NormalizePath};
 use actix_web::rt::time::timeout;
-use actix_web::{App, HttpResponse, HttpServer};
+use actix_web::{App, HttpMessage, HttpResponse, HttpServer};
 use std::env;
 use std::time::Duration;
 
@@ -43,24 +43,21 @@ async fn main() -> std::io::Result<()> {
             .wrap(Logger::default())
             .wrap(NormalizePath::new(TrailingSlash::Trim))
             .wrap(get_rate_limit_middleware(rate_limit_store.clone()))
-            .wrap_fn(|mut req, srv| {
+            .wrap_fn(|req, srv| {
                 let has_id = get_rate_limit_identifier(&req).is_some();
                 let mut cookie: Option<Cookie> = None;
 
                 if !has_id {
                     let new_id = generate_rate_limit_id();
                     log::debug!("Generating new rate limiter id for unknown ip: {}", new_id);
-                    let temp_cookie = CookieBuilder::new(RATE_LIMIT_ID, new_id)
+                    let temp_cookie = CookieBuilder::new(RATE_LIMIT_ID, new_id.clone())
                         .http_only(true)
                         .path("/")
                         .permanent()
                         .finish();
 
-                    // We need set the cookie to the request, to allow other middlewares to read it
-                    req.headers_mut().insert(
-                        COOKIE,
-                        HeaderValue::from_str(&temp_cookie.to_string()).unwrap(),
-                    );
+                    // We need set the id to the request, to allow other middlewares to read it
+                    req.extensions_mut().insert(AssignedRateLimitId(new_id));
 
                     cookie = Some(temp_cookie);
                 }
diff --git a/prexel-server/src/middlewares/rate_limiter.rs b/prexel-server/src/middlewares/rate_limiter.rs
index 284bf08..468bad9 100644
--- a/prexel-server/src/middlewares/rate_limiter.rs
+++ b/prexel-server/src/middlewares/rate_limiter.rs
@@ -4,6 +4,9 @@ use uuid::Uuid;
 
 pub const RATE_LIMIT_ID : &str = "X-Ratelimit-Id";
 
+/// The id given to a request that comes without address and without id.
+pub struct AssignedRateLimitId(pub String);
+
 pub fn get_rate_limit_identifier(req: &ServiceRequest) -> Option<String> {
     fn internal_get_identifier(req: &ServiceRequest) -> Option<String> {
         // FIXME: Peer address can be trick with a proxy
@@ -18,7 +21,9 @@ pub fn get_rate_limit_identifier(req: &ServiceRequest) -> Option<String> {
             }
         }
 
-        None
+        req.extensions()
+            .get::<AssignedRateLimitId>()
+            .map(|id| id.0.clone())
     }
 
     internal_get_identifier(req).map(|id| {
-- 
2.43.0


From f441c3ffe618d1b25be97303f8f80bcab0c8c402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:00 +0000
Subject: [PATCH 18/24] fix: an identity sent in a cookie is never taken for
 the address of another client

---
 prexel-server/src/middlewares/rate_limiter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prexel-server/src/middlewares/rate_limiter.rs b/prexel-server/src/middlewares/rate_limiter.rs
index 468bad9..d74476e 100644
--- a/prexel-server/src/middlewares/rate_limiter.rs
+++ b/prexel-server/src/middlewares/rate_limiter.rs
@@ -12,18 +12,18 @@ pub fn get_rate_limit_identifier(req: &ServiceRequest) -> Option<String> {
         // FIXME: Peer address can be trick with a proxy
         // The port is not part of the identity, each connection of a client has its own
         if let Some(peer_addr) = req.peer_addr() {
-            return Some(peer_addr.ip().to_string());
+            return Some(format!("ip:{}", peer_addr.ip()));
         }
 
         if let Some(cookie) = req.cookie(RATE_LIMIT_ID) {
             if cookie.http_only().unwrap_or(true) {
-                return Some(cookie.value().to_string());
+                return Some(format!("id:{}", cookie.value()));
             }
         }
 
         req.extensions()
             .get::<AssignedRateLimitId>()
-            .map(|id| id.0.clone())
+            .map(|id| format!("id:{}", id.0))
     }
 
     internal_get_identifier(req).map(|id| {
-- 
2.43.0


From f63be8673131aa19db7507b17ad30641a03183b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 19/24] fix: the interactive session puts the terminal in raw
 mode, so that keys arrive when pressed and are shown once

---
 eval/src/repl/repl.rs | 37 +++++++++++++++++++++++++++++++++++--
 eval/src/writer.rs    | 14 ++++++++++++--
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/eval/src/repl/repl.rs b/eval/src/repl/repl.rs
index d6553bc..9c8a341 100644
--- a/eval/src/repl/repl.rs
+++ b/eval/src/repl/repl.rs
@@ -1,8 +1,9 @@
 use crate::collections::carray::CircularArray;
 use crate::repl::repl_writer::ReplWriter;
 use crossterm::event;
-use crossterm::event::{Event, KeyCode};
+use crossterm::event::{Event, KeyCode, KeyEvent, KeyModifiers};
 use crossterm::style::Color;
+use crossterm::terminal;
 use std::ops::ControlFlow;
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
@@ -15,6 +16,22 @@ pub struct Repl {
     exit_text: Option<String>,
 }
 
+/// Keeps the terminal in raw mode: the keys arrive as they are pressed, and only
+/// the session itself shows them. Restores the terminal when dropped.
+struct RawMode;
+
+impl RawMode {
+    fn enable() -> Option<Self> {
+        terminal::enable_raw_mode().ok().map(|_| RawMode)
+    }
+}
+
+impl Drop for RawMode {
+    fn drop(&mut self) {
+        let _ = terminal::disable_raw_mode();
+    }
+}
+
 #[allow(unused)]
 impl Repl {
     pub fn run<F>(mut self, mut f: F)
@@ -31,6 +48,7 @@ impl Repl {
         })
         .expect("Error setting Ctrl-C handler");
 
+        let _raw_mode = RawMode::enable();
         let mut buf = String::new();
 
         if let Some(pre_text) = self.pre_text {
@@ -52,8 +70,12 @@ impl Repl {
                 break;
             }
 
-            match event::read().unwrap() {
+            match line_feed_as_enter(event::read().unwrap()) {
                 Event::Key(event) => match event.code {
+                    // In raw mode the terminal does not turn it into a signal
+                    KeyCode::Char('c') if event.modifiers == KeyModifiers::CONTROL => {
+                        break;
+                    }
                     KeyCode::Backspace => {
                         if buf.len() > 0 {
                             buf.pop();
@@ -127,6 +149,17 @@ impl Repl {
     }
 }
 
+/// In raw mode a line feed arrives as Ctrl+J.
+fn line_feed_as_enter(event: Event) -> Event {
+    match event {
+        Event::Key(KeyEvent {
+            code: KeyCode::Char('j'),
+            modifiers: KeyModifiers::CONTROL,
+        }) => Event::Key(KeyCode::Enter.into()),
+        _ => event,
+    }
+}
+
 pub struct ReplBuilder {
     prompt_prefix: Option<String>,
     history_size: Option<usize>,
diff --git a/eval/src/writer.rs b/eval/src/writer.rs
index 81734e3..7e375b5 100644
--- a/eval/src/writer.rs
+++ b/eval/src/writer.rs
@@ -2,6 +2,7 @@ use std::fmt::Display;
 use std::io::Write;
 use std::sync::atomic::{AtomicBool, Ordering};
 use crossterm::style::{Color, StyledContent, Stylize};
+use crossterm::terminal::is_raw_mode_enabled;
 use crate::style::TextStyling;
 
 #[macro_export]
@@ -26,6 +27,15 @@ pub fn set_use_colors(value: bool) {
     USE_COLORS.store(value, Ordering::SeqCst);
 }
 
+/// In raw mode the terminal does not return to the first column at the end of a line.
+fn newline() -> &'static str {
+    if is_raw_mode_enabled().unwrap_or(false) {
+        "\r\n"
+    } else {
+        "\n"
+    }
+}
+
 #[derive(Debug, Clone)]
 pub struct ColorWriter {
     pub(crate) fg: Option<Color>,
@@ -83,7 +93,7 @@ impl ColorWriter {
 
     pub fn writeln<D: Display>(&mut self, data: D) {
         self.write(data);
-        self.write("\n");
+        self.write(newline());
     }
 
     pub fn write_err<D: Display>(&mut self, data: D) {
@@ -107,7 +117,7 @@ impl ColorWriter {
 
     pub fn writeln_err<D: Display>(&mut self, data: D) {
         self.write_err(data);
-        self.write_err("\n");
+        self.write_err(newline());
     }
 
     pub fn reset(&mut self) -> &mut Self {
-- 
2.43.0


From 8fa5cb9ac0bc74d6f281f617d5fdae5007a28771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:49 +0000
Subject: [PATCH 20/24] fix: equal names in different case have the same hash,
 also outside ASCII

---
 prexel/src/utils/ignore_case_str.rs    | 5 +++--
 prexel/src/utils/ignore_case_string.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/prexel/src/utils/ignore_case_str.rs b/prexel/src/utils/ignore_case_str.rs
index 2a89f6d..0ba6307 100644
--- a/prexel/src/utils/ignore_case_str.rs
+++ b/prexel/src/utils/ignore_case_str.rs
@@ -84,8 +84,9 @@ impl<'a> PartialOrd for IgnoreCaseStr<'a> {
 
 impl<'a> Hash for IgnoreCaseStr<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for c in self.0.as_bytes() {
-            c.to_ascii_lowercase().hash(state);
+        // Equal values must have the same hash: lowercases in the same way as the comparison.
+        for c in self.0.chars().flat_map(char::to_lowercase) {
+            c.hash(state);
         }
     }
 }
diff --git a/prexel/src/utils/ignore_case_string.rs b/prexel/src/utils/ignore_case_string.rs
index e6246cc..4bcec7d 100644
--- a/prexel/src/utils/ignore_case_string.rs
+++ b/prexel/src/utils/ignore_case_string.rs
@@ -92,8 +92,9 @@ impl PartialOrd for IgnoreCaseString {
 impl Hash for IgnoreCaseString {
     #[inline]
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for c in self.0.bytes() {
-            c.to_ascii_lowercase().hash(state);
+        // Equal values must have the same hash: lowercases in the same way as the comparison.
+        for c in self.0.chars().flat_map(char::to_lowercase) {
+            c.hash(state);
         }
     }
 }
-- 
2.43.0


From bb261e479d88609fb60a11913d7a2c238a21fd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 21/24] fix: a function or operator whose further name is taken
 is refused with an error and leaves no trace

---
 prexel/src/context.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/prexel/src/context.rs b/prexel/src/context.rs
index 4147e26..1e61e42 100644
--- a/prexel/src/context.rs
+++ b/prexel/src/context.rs
@@ -187,11 +187,14 @@ impl<'a, N> DefaultContext<'a, N> {
             let func = Rc::new(func);
 
             if let Some(aliases) = func.aliases() {
+                // Nothing is added unless all the names are free
                 for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     if self.functions.contains_key(&alias) {
-                        panic!("A function named '{}' already exists", alias);
+                        return Err(Error::new(ErrorKind::Unknown, format!("A function named '{}' already exists", alias)));
                     }
+                }
 
+                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     self.functions.insert(alias, func.clone());
                 }
             }
@@ -216,11 +219,14 @@ impl<'a, N> DefaultContext<'a, N> {
             let func = Rc::new(func);
 
             if let Some(aliases) = func.aliases() {
+                // Nothing is added unless all the names are free
                 for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     if self.unary_functions.contains_key(&alias) {
-                        panic!("An unary function named '{}' already exists", alias);
+                        return Err(Error::new(ErrorKind::Unknown, format!("An unary function named '{}' already exists", alias)));
                     }
+                }
 
+                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     self.unary_functions.insert(alias, func.clone());
                 }
             }
@@ -256,11 +262,14 @@ impl<'a, N> DefaultContext<'a, N> {
             let func = Rc::new(func);
 
             if let Some(aliases) = func.aliases() {
+                // Nothing is added unless all the names are free
                 for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     if self.binary_functions.contains_key(&alias) {
-                        panic!("A binary function named '{}' already exists", alias);
+                        return Err(Error::new(ErrorKind::Unknown, format!("A binary function named '{}' already exists", alias)));
                     }
+                }
 
+                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
                     self.binary_functions.insert(alias, func.clone());
                 }
             }
-- 
2.43.0


From 4af59e2f2261c11ac62da3407457c4a827b37650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:39 +0000
Subject: [PATCH 22/24] fix: a sequence of unary operators is read as such: ~
 ~1, 5! !, 1 mod -2 with one-letter or non-ASCII operators

---
 prexel/src/tokenizer.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index 21cb9cb..eb3e36b 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -204,8 +204,11 @@ where
                         }
                     }
 
-                    // 10! , PI!, x!
-                    N::from_str(s).is_ok() || context.is_constant(s) || context.is_variable(s)
+                    // 10! , PI!, x!, 10!!
+                    N::from_str(s).is_ok()
+                        || context.is_constant(s)
+                        || context.is_variable(s)
+                        || is_postfix_only(s, context)
                 }
                 None => false,
             }
@@ -232,12 +235,15 @@ where
                 }
 
                 // 10! - 2
-                let first_len = prev_str.chars().next().map_or(0, char::len_utf8);
-                let first = &prev_str[..first_len];
-                if context.is_unary_function(first) && !context.is_binary_function(first) {
+                if is_postfix_only(prev_str, context) {
                     return false;
                 }
 
+                // + -2, - -2, mod -2
+                if context.is_binary_function(prev_str) || context.is_unary_function(prev_str) {
+                    return true;
+                }
+
                 // +-, (-, !+
                 if prev_str.chars().count() == 1 {
                     let c = prev_str.chars().last().unwrap();
@@ -255,6 +261,17 @@ where
     }
 }
 
+/// Checks if the name can only be an operator written after its operand.
+fn is_postfix_only<'a, N, C>(name: &str, context: &C) -> bool
+where
+    C: Context<'a, N>,
+{
+    !context.is_binary_function(name)
+        && context
+            .get_unary_function(name)
+            .map_or(false, |op| op.notation() == Notation::Postfix)
+}
+
 // TODO: remove
 #[allow(unused)]
 fn is_number(value: &str) -> bool {
-- 
2.43.0


From 2c5d62b6a8f6b14f1be7ceb16e768048e1faf342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 23/24] fix: random numbers lie in the requested range for
 every number type and every random value

---
 prexel/src/complex/mod.rs | 33 ++++++++++++++++---------
 prexel/src/ops/mod.rs     | 51 +++++++++++++++++++++++++++++++--------
 2 files changed, 63 insertions(+), 21 deletions(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index d5f4286..2f9ebb6 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -80,21 +80,32 @@ pub mod ops {
                         ErrorKind::InvalidInput,
                         "Random(...) only accepts real numbers as arguments")
                     )
+                }else if !c.re.is_finite(){
+                    Err(Error::from(ErrorKind::NAN))
                 }else{
                     Ok(c.re)
                 }
             }
 
-            #[inline(always)]
-            fn random_t<N: FromPrimitive>() -> Result<N>{
-                N::from_f64(random::<f64>())
-                    .ok_or_else(|| Error::from(ErrorKind::Overflow))
+            /// Gets a random value in the range `min..max`, or `min` if there is none other.
+            fn random_in_range<N: Float + FromPrimitive>(min: N, max: N) -> Result<N>{
+                let r = N::from_f64(random::<f64>())
+                    .ok_or_else(|| Error::from(ErrorKind::Overflow))?;
+
+                let mut value = min + (max - min) * r;
+                if !value.is_finite(){
+                    // The width of the range overflows
+                    value = min * (N::one() - r) + max * r;
+                }
+
+                // Could be rounded out of the range
+                if value >= min && value < max { Ok(value) } else { Ok(min) }
             }
 
             match args.len(){
                 0 => {
-                    let re = random_t::<T>()?;
-                    let im = random_t::<T>()?;
+                    let re = random_in_range(T::zero(), T::one())?;
+                    let im = random_in_range(T::zero(), T::one())?;
                     Ok(Complex::new(re, im))
                 },
                 1 => {
@@ -103,22 +114,22 @@ pub mod ops {
                         return Err(Error::from(ErrorKind::NegativeValue))
                     }
 
-                    let re = random_t::<T>()? * max;
-                    let im = random_t::<T>()? * max;
+                    let re = random_in_range(T::zero(), max)?;
+                    let im = random_in_range(T::zero(), max)?;
                     Ok(Complex::new(re, im))
                 },
                 2 => {
                     let min = try_get_real(&args[0])?;
                     let max = try_get_real(&args[1])?;
-                    if min.is_sign_negative() || max.is_sign_negative(){
+                    if min > max{
                         return Err(Error::new(
                             ErrorKind::InvalidInput,
                             format!("Invalid `Random` arguments: `min > max`, {} > {}", min, max)
                         ));
                     }
 
-                    let re = min + ((max - min) * random_t::<T>()?);
-                    let im = min + ((max - min) * random_t::<T>()?);
+                    let re = random_in_range(min, max)?;
+                    let im = random_in_range(min, max)?;
                     Ok(Complex::new(re, im))
                 }
                 _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index b287038..7fdb230 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -622,36 +622,67 @@ mod math_ops {
     }
 
     pub struct RandFunction;
-    impl<N: ToPrimitive + FromPrimitive> Function<N> for RandFunction {
+    impl<N: ToPrimitive + FromPrimitive + PartialOrd + Clone> Function<N> for RandFunction {
         #[inline]
         fn name(&self) -> &str {
             "random"
         }
 
         fn call(&self, args: &[N]) -> Result<N> {
+            /// Gets a random value in the range `min..max`, or `min` if there is none other.
+            fn random_in_range<N>(min: &N, max: &N) -> Result<N>
+            where
+                N: ToPrimitive + FromPrimitive + PartialOrd + Clone,
+            {
+                let low = try_to_float(min)?;
+                let high = try_to_float(max)?;
+                let r = random::<f64>();
+
+                let mut value = low + (high - low) * r;
+                if !value.is_finite() {
+                    // The width of the range overflows
+                    value = low * (1.0 - r) + high * r;
+                }
+
+                // The conversion to an integer truncates to zero, which is up if negative
+                let is_integer = N::from_f64(0.5).and_then(|n| n.to_f64()) == Some(0.0);
+                if is_integer {
+                    value = value.floor();
+                }
+
+                // The conversion from and to `f64` could round the value out of the range
+                Ok(N::from_f64(value)
+                    .filter(|n| n >= min && n < max)
+                    .unwrap_or_else(|| min.clone()))
+            }
+
             match args.len() {
-                0 => N::from_f64(random::<f64>()).ok_or_else(|| Error::from(ErrorKind::Overflow)),
+                0 => {
+                    let zero = N::from_f64(0.0).ok_or_else(|| Error::from(ErrorKind::Overflow))?;
+                    let one = N::from_f64(1.0).ok_or_else(|| Error::from(ErrorKind::Overflow))?;
+                    random_in_range(&zero, &one)
+                }
                 1 => {
-                    let max = try_to_float(&args[0])?;
-                    if max.is_sign_negative(){
+                    let max = &args[0];
+                    if try_to_float(max)?.is_sign_negative() {
                         return Err(Error::from(ErrorKind::NegativeValue));
                     }
 
-                    N::from_f64(random::<f64>() * max).ok_or_else(|| Error::from(ErrorKind::Overflow))
+                    let zero = N::from_f64(0.0).ok_or_else(|| Error::from(ErrorKind::Overflow))?;
+                    random_in_range(&zero, max)
                 }
                 2 => {
-                    let min = try_to_float(&args[0])?;
-                    let max = try_to_float(&args[1])?;
+                    let min = &args[0];
+                    let max = &args[1];
 
                     if min > max {
                         return Err(Error::new(
                             ErrorKind::InvalidInput,
-                            format!("Invalid range for `Random`: min > max, {} > {}", min, max))
+                            format!("Invalid range for `Random`: min > max, {} > {}", try_to_float(min)?, try_to_float(max)?))
                         )
                     }
 
-                    let value = min + ((max - min) * random::<f64>());
-                    N::from_f64(value).ok_or_else(|| Error::from(ErrorKind::Overflow))
+                    random_in_range(min, max)
                 }
                 _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
             }
-- 
2.43.0


From 7e55da81ef53df7ba9fea29eab64605b38df438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:48 +0000
Subject: [PATCH 24/24] fix: a character with Ctrl or Alt held is a command,
 not text to insert

---
 eval/src/repl/repl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eval/src/repl/repl.rs b/eval/src/repl/repl.rs
index 9c8a341..3e03b4d 100644
--- a/eval/src/repl/repl.rs
+++ b/eval/src/repl/repl.rs
@@ -127,6 +127,11 @@ impl Repl {
                     }
                     KeyCode::Left => {}
                     KeyCode::Right => {}
+                    // A character with either Ctrl or Alt is a command, not text; with both
+                    // it is what AltGr reports for the characters it types
+                    KeyCode::Char(_)
+                        if event.modifiers.contains(KeyModifiers::CONTROL)
+                            != event.modifiers.contains(KeyModifiers::ALT) => {}
                     KeyCode::Char(c) => {
                         buf.push(c);
                         self.writer.write(c);
-- 
2.43.0

