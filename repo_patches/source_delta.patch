From 26cd69417f1e19f2fafbbbfd622e13f951a14966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 1/9] fix: report a remainder by zero instead of panicking

---
 src/syntax_tree.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/syntax_tree.rs b/src/syntax_tree.rs
index 90e843b..3947a47 100644
--- a/src/syntax_tree.rs
+++ b/src/syntax_tree.rs
@@ -157,7 +157,12 @@ impl OperationNode for BinaryNode {
                 }
                 Ok(operand_1 / operand_2)
             }
-            BinaryOperatorToken::Modulus => Ok(operand_1 % operand_2),
+            BinaryOperatorToken::Modulus => {
+                if *operand_2.numer() == BigInt::from(0) {
+                    return Err(Positioned::new(DivisionByZero, self.operator_position).into());
+                }
+                Ok(operand_1 % operand_2)
+            }
             BinaryOperatorToken::Exponent => {
                 let total_precision = args.precision + args.extra_precision;
                 exponentiate(operand_1, operand_2, total_precision, args.radix)
-- 
2.43.0


From 1c3b19ab5bdf02cb6d74dc9dddd6afb2d81de484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 2/9] fix: report zero raised to a negative power instead of
 panicking

---
 src/operations.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/operations.rs b/src/operations.rs
index 43fd238..74ddec6 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,4 +1,4 @@
-use crate::error::MathExecutionError::{self, ImaginaryResult};
+use crate::error::MathExecutionError::{self, DivisionByZero, ImaginaryResult};
 
 use num::{
     bigint::BigInt, pow::Pow, rational::BigRational, traits::Inv, BigUint, Integer, Signed, Zero,
@@ -81,6 +81,9 @@ pub fn exponentiate(
 ) -> Result<BigRational, MathExecutionError> {
     // Step 1: If necessary, convert `b^-(n/d)` to `(1/b)^(n/d)`.
     if exponent.is_negative() {
+        if base.is_zero() {
+            return Err(DivisionByZero);
+        }
         base = base.inv();
     }
 
-- 
2.43.0


From 745cb51d4dfadec7041e1f71a1dcc5f427b10521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 3/9] fix: compute roots of numbers between -1 and 1 instead of
 panicking

---
 src/operations.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index 74ddec6..84fc6a3 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,7 +1,7 @@
 use crate::error::MathExecutionError::{self, DivisionByZero, ImaginaryResult};
 
 use num::{
-    bigint::BigInt, pow::Pow, rational::BigRational, traits::Inv, BigUint, Integer, Signed, Zero,
+    bigint::BigInt, pow::Pow, rational::BigRational, traits::Inv, BigUint, Integer, One, Signed, Zero,
 };
 
 /// `BigRational` only seems to support fractional string conversion, but we want to support decimal
@@ -97,6 +97,19 @@ pub fn exponentiate(
     // Step 2: Convert `b^(n/d)` to `(b^n)^(1/d)` and compute `r = b^n` so we are left with
     // `r^(1/d)`.
     let radicand = base.pow(exp_num);
+    // The search for a starting point below yields `0` for a radicand between `-1` and `1`, but
+    // Newton's method cannot start there. So convert `r^(1/d)` to `1/((1/r)^(1/d))` in that case.
+    let invert = !exp_denom.is_one()
+        && !radicand.is_zero()
+        && radicand.numer().magnitude() < radicand.denom().magnitude();
+    let radicand = if invert { radicand.inv() } else { radicand };
+    let finish = |x: BigRational| -> BigRational {
+        if invert {
+            x.inv()
+        } else {
+            x
+        }
+    };
 
     // Step 3: Newton's Method
     // Given `r` and `d`, we want to compute `r^(1/d)`. We will call the result `x`.
@@ -174,7 +187,7 @@ pub fn exponentiate(
         let guess_ratio = BigRational::from(guess);
         // Return early if it's an exact integer.
         if error.is_zero() {
-            return Ok(guess_ratio);
+            return Ok(finish(guess_ratio));
         }
 
         guess_ratio
@@ -190,7 +203,7 @@ pub fn exponentiate(
         }
     }
 
-    Ok(x)
+    Ok(finish(x))
 }
 
 #[cfg(test)]
-- 
2.43.0


From facc8ec1235bc3d8c817bae9fffc815186c7a45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 4/9] fix: do not overflow when adding precision and extra
 precision

---
 src/operations.rs  | 2 +-
 src/syntax_tree.rs | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index 84fc6a3..4d841ca 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -76,7 +76,7 @@ pub fn make_decimal_string(
 pub fn exponentiate(
     mut base: BigRational,
     exponent: BigRational,
-    precision: u8,
+    precision: u32,
     radix: u8,
 ) -> Result<BigRational, MathExecutionError> {
     // Step 1: If necessary, convert `b^-(n/d)` to `(1/b)^(n/d)`.
diff --git a/src/syntax_tree.rs b/src/syntax_tree.rs
index 3947a47..bcb5f74 100644
--- a/src/syntax_tree.rs
+++ b/src/syntax_tree.rs
@@ -108,7 +108,8 @@ impl OperationNode for UnaryNode {
                 .execute(maybe_vars.as_deref_mut(), maybe_db.as_deref_mut(), args)?;
         match self.operator {
             UnaryOperatorToken::SquareRoot => {
-                let total_precision = args.precision + args.extra_precision;
+                let total_precision =
+                    u32::from(args.precision) + u32::from(args.extra_precision);
                 let one_half = BigRational::new(
                     ToBigInt::to_bigint(&1).unwrap(),
                     ToBigInt::to_bigint(&2).unwrap(),
@@ -164,7 +165,8 @@ impl OperationNode for BinaryNode {
                 Ok(operand_1 % operand_2)
             }
             BinaryOperatorToken::Exponent => {
-                let total_precision = args.precision + args.extra_precision;
+                let total_precision =
+                    u32::from(args.precision) + u32::from(args.extra_precision);
                 exponentiate(operand_1, operand_2, total_precision, args.radix)
                     .map_err(|e| Positioned::new(e, self.operator_position.clone()).into())
             }
-- 
2.43.0


From a145576bf02092f748936fc94cfb378148e3a59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 5/9] fix: do not accept 1 as the output radix

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ac4fe58..3c7cd95 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -66,7 +66,7 @@ pub struct Args {
     /// If specified, the output radix (base) will be set to this rather than being the same as the
     /// input radix.
     #[arg(long)]
-    #[arg(value_parser = clap::value_parser!(u8).range(1..17))]
+    #[arg(value_parser = clap::value_parser!(u8).range(2..=16))]
     convert_to_radix: Option<u8>,
 
     /// Maximum number of decimal digits to output.
-- 
2.43.0


From d1c816903ff64c5db5b985b2995d20dd351cff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 6/9] fix: report a window with no room for text instead of
 dividing by zero

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 3c7cd95..a39ebbc 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -175,7 +175,7 @@ fn interactive_calc(
             let current_input = inputs.current_line();
             if args.alternate_screen || input_complete {
                 let wrap_str: String = std::iter::repeat(" ").take(PROMPT_STR.len()).collect();
-                if cols < wrap_str.len() {
+                if cols <= wrap_str.len() {
                     return Err(CalculatorEnvironmentError::new("Window too narrow").into());
                 }
                 let available_cols = cols - wrap_str.len();
-- 
2.43.0


From 6155a266a51702ec9873d8f9d1b26082693ca91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 7/9] fix: report a stored variable with denominator zero
 instead of panicking

---
 src/saved_data.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/saved_data.rs b/src/saved_data.rs
index 005f008..1e64fa9 100644
--- a/src/saved_data.rs
+++ b/src/saved_data.rs
@@ -465,6 +465,13 @@ impl SavedData {
                 .into());
             }
         };
+        if denom == BigInt::ZERO {
+            return Err(CalculatorDatabaseInconsistencyError::new(format!(
+                "Stored denominator for variable '{}' is zero",
+                &name
+            ))
+            .into());
+        }
         let value = BigRational::new(numer, denom);
 
         Ok(Some(Variable { name, value }))
-- 
2.43.0


From 819ec912170294a01076bb0efabd75b8cb266fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 8/9] fix: do not overflow when computing the row of the cursor

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index a39ebbc..7a9167b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -179,7 +179,8 @@ fn interactive_calc(
                     return Err(CalculatorEnvironmentError::new("Window too narrow").into());
                 }
                 let available_cols = cols - wrap_str.len();
-                let cursor_row: u16 = u16::try_from(cursor_pos / available_cols)? + input_start.1;
+                let cursor_row: u16 =
+                    u16::try_from(cursor_pos / available_cols + usize::from(input_start.1))?;
                 let cursor_col: u16 =
                     u16::try_from((cursor_pos % available_cols) + wrap_str.len())?;
                 let mut end_index = min(available_cols, current_input.len());
-- 
2.43.0


From c06b2ca2fcb80ee397b63863a2385277aa7cb18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 9/9] fix: honour output radix, commas and upper case for
 fractional results

---
 src/main.rs       | 17 +++++++++++------
 src/operations.rs | 42 ++++++++++++++++++++++++++++++++++--------
 2 files changed, 45 insertions(+), 14 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 7a9167b..230bc87 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -23,7 +23,7 @@ use crossterm::{
 };
 use error::{CalculatorEnvironmentError, CalculatorFailure, InternalCalculatorError};
 use input_history::InputHistory;
-use operations::make_decimal_string;
+use operations::{make_decimal_string, make_fractional_string};
 use saved_data::SavedData;
 use std::{
     cmp::{max, min},
@@ -571,13 +571,18 @@ fn calculate(
     let st = SyntaxTree::new(tokens.into())?;
     let result = st.execute(maybe_input_history_id, maybe_vars, maybe_db, args)?;
 
+    let output_radix = match args.convert_to_radix {
+        Some(radix) => radix,
+        None => args.radix,
+    };
     if args.fractional {
-        Ok(result.to_string())
+        Ok(make_fractional_string(
+            &result,
+            output_radix,
+            args.commas,
+            args.upper,
+        ))
     } else {
-        let output_radix = match args.convert_to_radix {
-            Some(radix) => radix,
-            None => args.radix,
-        };
         Ok(make_decimal_string(
             &result,
             output_radix,
diff --git a/src/operations.rs b/src/operations.rs
index 4d841ca..28873b4 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -49,11 +49,43 @@ pub fn make_decimal_string(
             fractional_string
         }
     };
-    let mut int_string = int_value.to_str_radix(radix as u32);
+    let int_string_commas = make_integer_string(int_value.magnitude(), radix, commas, upper);
+
+    if fractional_string.is_empty() {
+        format!("{}{}", sign_str, int_string_commas)
+    } else {
+        format!("{}{}.{}", sign_str, int_string_commas, fractional_string)
+    }
+}
+
+/// Like `make_decimal_string`, but for the exact value as a fraction in lowest terms. The
+/// denominator is only displayed if the value is not an integer.
+pub fn make_fractional_string(
+    value: &BigRational,
+    radix: u8,
+    commas: bool,
+    upper: bool,
+) -> String {
+    let sign_str = if value < &BigRational::zero() {
+        "-"
+    } else {
+        ""
+    };
+    let numer_string = make_integer_string(value.numer().magnitude(), radix, commas, upper);
+    if value.is_integer() {
+        format!("{}{}", sign_str, numer_string)
+    } else {
+        let denom_string = make_integer_string(value.denom().magnitude(), radix, commas, upper);
+        format!("{}{}/{}", sign_str, numer_string, denom_string)
+    }
+}
+
+fn make_integer_string(value: &BigUint, radix: u8, commas: bool, upper: bool) -> String {
+    let mut int_string = value.to_str_radix(radix as u32);
     if upper {
         int_string.make_ascii_uppercase();
     }
-    let int_string_commas: String = if commas {
+    if commas {
         int_string
             .chars()
             .collect::<Vec<char>>()
@@ -64,12 +96,6 @@ pub fn make_decimal_string(
             .join(",")
     } else {
         int_string
-    };
-
-    if fractional_string.is_empty() {
-        format!("{}{}", sign_str, int_string_commas)
-    } else {
-        format!("{}{}.{}", sign_str, int_string_commas, fractional_string)
     }
 }
 
-- 
2.43.0

