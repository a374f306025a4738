From 0e3d68b1a91350f28f69fa1094526eb24f0fff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 01/47] fix: apply every prefix operator to the operand right
 after it, groups and calls included

---
 prexel/src/evaluator.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 8c82f77..71589fa 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -366,6 +366,7 @@ mod shunting_yard {
                 }
                 Token::GroupingClose(c) => {
                     push_grouping_close(context, *c, &mut output, &mut operators, &mut arg_count)?;
+                    push_prefix_operators(context, &mut output, &mut operators);
 
                     // Checking for empty grouping symbols: eg: `Random(())`, `()+2`
                     if pos > 1 {
@@ -487,10 +488,22 @@ mod shunting_yard {
         token: &Token<N>,
     ) {
         output.push(token.clone());
-        if let Some(Token::UnaryOperator(op)) = operators.last() {
-            if context.get_unary_function(op).is_some() {
-                output.push(operators.pop().unwrap());
+        push_prefix_operators(context, output, operators);
+    }
+
+    // Moves to the output the prefix operators that wait for the operand just completed,
+    // the innermost (the last one written) first.
+    fn push_prefix_operators<'a, N: Clone + Debug>(
+        context: &impl Context<'a, N>,
+        output: &mut Vec<Token<N>>,
+        operators: &mut Vec<Token<N>>,
+    ) {
+        while let Some(Token::UnaryOperator(op)) = operators.last() {
+            if context.get_unary_function(op).is_none() {
+                break;
             }
+
+            output.push(operators.pop().unwrap());
         }
     }
 
-- 
2.43.0


From fc1a768b07939fa93b9465e519c12c0bf2a78ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 02/47] fix: give the implicit multiplication the precedence of
 *

---
 prexel/src/evaluator.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 71589fa..44ac064 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -416,7 +416,7 @@ mod shunting_yard {
                             | Token::Constant(_)
                             | Token::Variable(_)
                             | Token::GroupingOpen(_) => {
-                                operators.push(BinaryOperator('*'.to_string()));
+                                push_implicit_mul(context, &mut output, &mut operators)?;
                             }
                             _ => {}
                         }
@@ -426,7 +426,9 @@ mod shunting_yard {
                     if let Some(next_token) = token_iterator.peek() {
                         match next_token.1 {
                             Number(_) | Variable(_) | Constant(_) | Function(_)
-                            | GroupingOpen(_) => operators.push(BinaryOperator('*'.to_string())),
+                            | GroupingOpen(_) => {
+                                push_implicit_mul(context, &mut output, &mut operators)?;
+                            }
                             _ => {}
                         }
                     }
@@ -593,6 +595,16 @@ mod shunting_yard {
         Ok(())
     }
 
+    // Pushes the `*` of an implicit multiplication, eg: `2x` as `2 * x`
+    fn push_implicit_mul<'a, N: Clone + Debug>(
+        context: &impl Context<'a, N>,
+        output: &mut Vec<Token<N>>,
+        operators: &mut Vec<Token<N>>,
+    ) -> Result<()> {
+        let token = BinaryOperator('*'.to_string());
+        push_binary_function(context, output, operators, &token, "*")
+    }
+
     fn push_grouping_close<'a, N: Clone + Debug>(
         context: &impl Context<'a, N>,
         group_close: char,
-- 
2.43.0


From 38011e0596b51dc69c25e2db5b40e824416ad39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 03/47] fix: pass no arguments to a function called with none

---
 prexel/src/evaluator.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 44ac064..98b8d4a 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -365,7 +365,15 @@ mod shunting_yard {
                     }
                 }
                 Token::GroupingClose(c) => {
-                    push_grouping_close(context, *c, &mut output, &mut operators, &mut arg_count)?;
+                    let is_empty = pos > 0 && tokens[pos - 1].is_grouping_open();
+                    push_grouping_close(
+                        context,
+                        *c,
+                        is_empty,
+                        &mut output,
+                        &mut operators,
+                        &mut arg_count,
+                    )?;
                     push_prefix_operators(context, &mut output, &mut operators);
 
                     // Checking for empty grouping symbols: eg: `Random(())`, `()+2`
@@ -608,6 +616,7 @@ mod shunting_yard {
     fn push_grouping_close<'a, N: Clone + Debug>(
         context: &impl Context<'a, N>,
         group_close: char,
+        is_empty: bool,
         output: &mut Vec<Token<N>>,
         operators: &mut Vec<Token<N>>,
         arg_count: &mut Vec<usize>,
@@ -627,7 +636,10 @@ mod shunting_yard {
                             // So we pop the argument count and function token into the output stack.
                             if !arg_count.is_empty() {
                                 if let Some(Token::Function(_)) = operators.last() {
-                                    let count = arg_count.pop().unwrap() + 1;
+                                    // The number of commas, a call with nothing between
+                                    // its grouping symbols have no arguments: `Random()`
+                                    let commas = arg_count.pop().unwrap();
+                                    let count = if is_empty { 0 } else { commas + 1 };
                                     output.push(Token::ArgCount(count));
                                     output.push(operators.pop().unwrap());
                                 }
-- 
2.43.0


From e9932d65a407934ace53bd2bcc8c3510cfceb04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 04/47] fix: return the error when a function is missing
 arguments

---
 prexel/src/evaluator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 98b8d4a..5d87205 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -236,10 +236,10 @@ where
                     match values.pop() {
                         Some(n) => args.push(n.clone()),
                         None => {
-                            Error::new(
+                            return Err(Error::new(
                                 ErrorKind::InvalidArgumentCount,
                                 format!("expected {} arguments but {} was get", n, args.len()),
-                            );
+                            ));
                         }
                     }
                 }
-- 
2.43.0


From 1c89666016ed5d4910a2fcdf45a9fc1e07b9e9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 05/47] fix: reject a grouping symbol that is never closed
 during the conversion

---
 prexel/src/evaluator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 5d87205..677f4c2 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -445,7 +445,7 @@ mod shunting_yard {
         }
 
         while let Some(t) = operators.pop() {
-            if t.is_grouping_close() || t.is_grouping_close() {
+            if t.is_grouping_open() || t.is_grouping_close() {
                 return Err(Error::new(
                     ErrorKind::InvalidExpression,
                     "Misplace parentheses",
-- 
2.43.0


From 1313390c65ec1073ac842409fe0ed56e8b9c34d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 06/47] fix: reject expressions whose operands and operators do
 not alternate

---
 prexel/src/evaluator.rs | 67 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 65 insertions(+), 2 deletions(-)

diff --git a/prexel/src/evaluator.rs b/prexel/src/evaluator.rs
index 677f4c2..6d02afc 100644
--- a/prexel/src/evaluator.rs
+++ b/prexel/src/evaluator.rs
@@ -326,6 +326,8 @@ mod shunting_yard {
 
         let mut token_iterator = tokens.iter().enumerate().peekable();
         while let Some((pos, token)) = token_iterator.next() {
+            check_token_position(context, pos.checked_sub(1).map(|i| &tokens[i]), token)?;
+
             match token {
                 Token::Number(_) | Token::Variable(_) | Token::Constant(_) => {
                     push_number(context, &mut output, &mut operators, token)
@@ -377,13 +379,13 @@ mod shunting_yard {
                     push_prefix_operators(context, &mut output, &mut operators);
 
                     // Checking for empty grouping symbols: eg: `Random(())`, `()+2`
-                    if pos > 1 {
+                    if pos > 0 {
                         if let Token::GroupingOpen(s) = tokens[pos - 1] {
                             if context
                                 .config()
                                 .get_group_open_for(*c)
                                 .map_or(false, |v| v == s)
-                                && !tokens[pos - 2].is_function()
+                                && !(pos > 1 && tokens[pos - 2].is_function())
                             {
                                 return Err(Error::new(
                                     ErrorKind::InvalidInput,
@@ -444,6 +446,14 @@ mod shunting_yard {
             }
         }
 
+        // An expression always ends in an operand, this also rejects the empty expression
+        if !tokens.last().map_or(false, |t| ends_operand(context, t)) {
+            return Err(Error::new(
+                ErrorKind::InvalidExpression,
+                "Expected an operand at the end of the expression",
+            ));
+        }
+
         while let Some(t) = operators.pop() {
             if t.is_grouping_open() || t.is_grouping_close() {
                 return Err(Error::new(
@@ -458,6 +468,59 @@ mod shunting_yard {
         Ok(output)
     }
 
+    // Checks if an operand is complete after the given token.
+    fn ends_operand<'a, N>(context: &impl Context<'a, N>, token: &Token<N>) -> bool {
+        match token {
+            Number(_) | Variable(_) | Constant(_) | GroupingClose(_) => true,
+            UnaryOperator(name) => context
+                .get_unary_function(name)
+                .map_or(false, |op| op.notation() == Notation::Postfix),
+            _ => false,
+        }
+    }
+
+    // Checks that operands and operators alternate as they should.
+    fn check_token_position<'a, N: Debug>(
+        context: &impl Context<'a, N>,
+        prev: Option<&Token<N>>,
+        token: &Token<N>,
+    ) -> Result<()> {
+        let after_operand = prev.map_or(false, |t| ends_operand(context, t));
+        let after_function = prev.map_or(false, |t| t.is_function());
+
+        let is_valid = match token {
+            Number(_) | Variable(_) | Constant(_) | Function(_) | GroupingOpen(_) => {
+                if after_operand {
+                    // Only as an implicit multiplication: `2x`, `(2)(4)`, but not `2 3`
+                    context.config().implicit_mul
+                        && prev.map_or(false, |t| {
+                            t.is_grouping_close() || (t.is_number() && !token.is_number())
+                        })
+                } else {
+                    // The arguments of a function are always within grouping symbols
+                    !after_function || token.is_grouping_open()
+                }
+            }
+            UnaryOperator(name) => match context.get_unary_function(name) {
+                Some(op) if op.notation() == Notation::Postfix => after_operand,
+                _ => !after_operand && !after_function,
+            },
+            BinaryOperator(_) | Comma => after_operand,
+            // `()` is only allowed as the arguments of a function
+            GroupingClose(_) => after_operand || prev.map_or(false, |t| t.is_grouping_open()),
+            _ => true,
+        };
+
+        if is_valid {
+            Ok(())
+        } else {
+            Err(Error::new(
+                ErrorKind::InvalidExpression,
+                format!("Misplaced token: {:?}", token),
+            ))
+        }
+    }
+
     fn check_comma_position<N>(
         tokens: &[Token<N>],
         grouping_count: &[usize],
-- 
2.43.0


From 1fd8822e408d9656081ea5ec0a7dc776b950b747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 07/47] fix: decide unary or binary from the whole previous
 token

---
 prexel/src/tokenizer.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index dca715d..b68eba1 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -204,8 +204,11 @@ where
                         }
                     }
 
-                    // 10! , PI!, x!
-                    N::from_str(s).is_ok() || context.is_constant(s) || context.is_variable(s)
+                    // 10! , PI!, x!, 10! !
+                    N::from_str(s).is_ok()
+                        || context.is_constant(s)
+                        || context.is_variable(s)
+                        || is_postfix(s, context)
                 }
                 None => false,
             }
@@ -232,19 +235,12 @@ where
                 }
 
                 // 10! - 2
-                if context.is_unary_function(&prev_str[..1])
-                    && !context.is_binary_function(&prev_str[..1])
-                {
+                if is_postfix(prev_str, context) {
                     return false;
                 }
 
-                // +-, (-, !+
-                if prev_str.chars().count() == 1 {
-                    let c = prev_str.chars().last().unwrap();
-                    c.is_ascii_punctuation()
-                } else {
-                    true
-                }
+                // +-, (-, mod-, there is not operand before
+                true
             } else {
                 // -10, +(25)
                 true
@@ -255,6 +251,15 @@ where
     }
 }
 
+fn is_postfix<'a, N, C>(name: &str, context: &C) -> bool
+where
+    C: Context<'a, N>,
+{
+    context
+        .get_unary_function(name)
+        .map_or(false, |op| op.notation() == Notation::Postfix)
+}
+
 // TODO: remove
 #[allow(unused)]
 fn is_number(value: &str) -> bool {
-- 
2.43.0


From fb4f4e07edca7d27a516fb980ae45075a03d5ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 08/47] fix: whitespace tokens of a custom splitter do not
 change how operators are read

---
 prexel/src/tokenizer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prexel/src/tokenizer.rs b/prexel/src/tokenizer.rs
index b68eba1..5ab5301 100644
--- a/prexel/src/tokenizer.rs
+++ b/prexel/src/tokenizer.rs
@@ -75,7 +75,9 @@ where
         }
 
         // `Vec` used for fast access indexing, Iterator.nth(..) could be O(N)
-        let raw_tokens = self.splitter.split_into_tokens(expression);
+        let mut raw_tokens = self.splitter.split_into_tokens(expression);
+        // Ignore whitespaces
+        raw_tokens.retain(|s| s != WHITESPACE);
         // Actual iterator over the string tokens.
         let mut iter = raw_tokens.iter().enumerate().peekable();
         // Stores the tokens to return.
@@ -153,8 +155,6 @@ where
                 }
             } else if string == COMMA {
                 tokens.push(Token::Comma);
-            } else if string == WHITESPACE {
-                // Ignore whitespaces
             } else {
                 if string.len() == 1 {
                     // If string token length is 1 and its not considered a binary operator, unary operator
-- 
2.43.0


From 9e0d2786761ddee1a9a3641b81e4924a5ddd961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 09/47] fix: do not lose the second decimal point of a number

---
 prexel/src/utils/splitter.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/prexel/src/utils/splitter.rs b/prexel/src/utils/splitter.rs
index 6ef73e2..fc462d2 100644
--- a/prexel/src/utils/splitter.rs
+++ b/prexel/src/utils/splitter.rs
@@ -235,12 +235,10 @@ pub mod rules {
 
                     let mut has_decimal_point = false;
 
-                    while let Some(c) = rest.next_if(is_valid_char) {
+                    while let Some(c) =
+                        rest.next_if(|c| is_valid_char(c) && !(*c == '.' && has_decimal_point))
+                    {
                         if c == '.' {
-                            if has_decimal_point {
-                                break;
-                            }
-
                             has_decimal_point = true;
                         }
 
-- 
2.43.0


From f3634b7c9f725a372f12510fbda98e6b2152d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 10/47] fix: a comma is never part of an operator

---
 prexel/src/utils/splitter.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/prexel/src/utils/splitter.rs b/prexel/src/utils/splitter.rs
index fc462d2..535bbcd 100644
--- a/prexel/src/utils/splitter.rs
+++ b/prexel/src/utils/splitter.rs
@@ -282,7 +282,6 @@ pub mod rules {
                         | '>'
                         | '/'
                         | '='
-                        | ','
                 )
             }
 
@@ -309,7 +308,7 @@ pub mod rules {
         pub fn new() -> Self {
             let operators = HashSet::from([
                 '~', '`', '!', '@', '#', '$', '%', '^', '&', '*', '-', '+', '_', ':', ';', '"',
-                '\'', '|', '\\', '?', '.', '<', '>', '/', '=', ',',
+                '\'', '|', '\\', '?', '.', '<', '>', '/', '=',
             ]);
 
             SplitWithOperatorsBuilder { operators }
-- 
2.43.0


From 86544bb56e9292cd2f27732d3f2a4cdb71afa255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 11/47] fix: refuse a function whose alias is taken without
 panicking or adding part of it

---
 prexel/src/context.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/prexel/src/context.rs b/prexel/src/context.rs
index 4147e26..dcbe954 100644
--- a/prexel/src/context.rs
+++ b/prexel/src/context.rs
@@ -187,11 +187,14 @@ impl<'a, N> DefaultContext<'a, N> {
             let func = Rc::new(func);
 
             if let Some(aliases) = func.aliases() {
-                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
-                    if self.functions.contains_key(&alias) {
-                        panic!("A function named '{}' already exists", alias);
-                    }
+                let aliases = aliases.iter().map(|s| IgnoreCaseString::from(*s));
 
+                // Checks all the aliases before inserting any
+                if let Some(alias) = aliases.clone().find(|s| self.functions.contains_key(s)) {
+                    return Err(Error::new(ErrorKind::Unknown, format!("A function named '{}' already exists", alias)));
+                }
+
+                for alias in aliases {
                     self.functions.insert(alias, func.clone());
                 }
             }
@@ -216,11 +219,14 @@ impl<'a, N> DefaultContext<'a, N> {
             let func = Rc::new(func);
 
             if let Some(aliases) = func.aliases() {
-                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
-                    if self.unary_functions.contains_key(&alias) {
-                        panic!("An unary function named '{}' already exists", alias);
-                    }
+                let aliases = aliases.iter().map(|s| IgnoreCaseString::from(*s));
+
+                // Checks all the aliases before inserting any
+                if let Some(alias) = aliases.clone().find(|s| self.unary_functions.contains_key(s)) {
+                    return Err(Error::new(ErrorKind::Unknown, format!("An unary function named '{}' already exists", alias)));
+                }
 
+                for alias in aliases {
                     self.unary_functions.insert(alias, func.clone());
                 }
             }
@@ -256,11 +262,14 @@ impl<'a, N> DefaultContext<'a, N> {
             let func = Rc::new(func);
 
             if let Some(aliases) = func.aliases() {
-                for alias in aliases.iter().map(|s| IgnoreCaseString::from(*s)) {
-                    if self.binary_functions.contains_key(&alias) {
-                        panic!("A binary function named '{}' already exists", alias);
-                    }
+                let aliases = aliases.iter().map(|s| IgnoreCaseString::from(*s));
+
+                // Checks all the aliases before inserting any
+                if let Some(alias) = aliases.clone().find(|s| self.binary_functions.contains_key(s)) {
+                    return Err(Error::new(ErrorKind::Unknown, format!("A binary function named '{}' already exists", alias)));
+                }
 
+                for alias in aliases {
                     self.binary_functions.insert(alias, func.clone());
                 }
             }
-- 
2.43.0


From c20a6394d538b1631522d6e305ed235af6ed4488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 12/47] fix: hash case-insensitive strings as they are compared

---
 prexel/src/utils/ignore_case_str.rs    | 5 +++--
 prexel/src/utils/ignore_case_string.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/prexel/src/utils/ignore_case_str.rs b/prexel/src/utils/ignore_case_str.rs
index 2a89f6d..2874c36 100644
--- a/prexel/src/utils/ignore_case_str.rs
+++ b/prexel/src/utils/ignore_case_str.rs
@@ -84,8 +84,9 @@ impl<'a> PartialOrd for IgnoreCaseStr<'a> {
 
 impl<'a> Hash for IgnoreCaseStr<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for c in self.0.as_bytes() {
-            c.to_ascii_lowercase().hash(state);
+        // Must fold the case as `eq` does
+        for c in self.0.chars().flat_map(char::to_lowercase) {
+            c.hash(state);
         }
     }
 }
diff --git a/prexel/src/utils/ignore_case_string.rs b/prexel/src/utils/ignore_case_string.rs
index e6246cc..5c79661 100644
--- a/prexel/src/utils/ignore_case_string.rs
+++ b/prexel/src/utils/ignore_case_string.rs
@@ -92,8 +92,9 @@ impl PartialOrd for IgnoreCaseString {
 impl Hash for IgnoreCaseString {
     #[inline]
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for c in self.0.bytes() {
-            c.to_ascii_lowercase().hash(state);
+        // Must fold the case as `eq` does
+        for c in self.0.chars().flat_map(char::to_lowercase) {
+            c.hash(state);
         }
     }
 }
-- 
2.43.0


From 67508fe6e6cd442de06dfef841d5a4004fff3f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 13/47] fix: factorial out of range is an overflow error, not a
 panic or an endless loop

---
 prexel/src/ops/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 52da326..8ce1c53 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -397,8 +397,18 @@ mod math_ops {
 
             let mut total = value;
             let mut next = total.clone() - N::one();
+            // Approximation of the result, to detect the overflow before it happens
+            let mut estimate = total.to_f64();
 
             while next >= N::one() {
+                estimate = estimate.and_then(|x| next.to_f64().map(|y| x * y));
+                if let Some(n) = estimate {
+                    // Out of range for the type, or infinite for a floating type
+                    if n.is_finite() != N::from_f64(n).is_some() {
+                        return Err(Error::from(ErrorKind::Overflow));
+                    }
+                }
+
                 total = total.clone() * next.clone();
                 next = next.clone() - N::one();
             }
-- 
2.43.0


From 98361a56aa97f3e7ab2ea78f1dfcd66b90e31ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 14/47] fix: average of more values than the type can count is
 an overflow error

---
 prexel/src/ops/checked.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/ops/checked.rs b/prexel/src/ops/checked.rs
index 6f6675c..7fbae1a 100644
--- a/prexel/src/ops/checked.rs
+++ b/prexel/src/ops/checked.rs
@@ -263,8 +263,8 @@ impl<N: CheckedAdd + CheckedDiv + FromPrimitive + Clone> Function<N> for AvgFunc
 
         match sum {
             Some(n) => {
-                let result = n
-                    .checked_div(&N::from_usize(args.len()).unwrap())
+                let result = N::from_usize(args.len())
+                    .and_then(|count| n.checked_div(&count))
                     .ok_or_else(|| Error::from(ErrorKind::Overflow))?;
 
                 Ok(result)
-- 
2.43.0


From 8c2167f96bbb667c8cd3f19142ced7a9837c996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 15/47] fix: subtraction of the field forwarding macros

---
 prexel/src/numeric_traits/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/numeric_traits/mod.rs b/prexel/src/numeric_traits/mod.rs
index 2542ae8..08858a4 100644
--- a/prexel/src/numeric_traits/mod.rs
+++ b/prexel/src/numeric_traits/mod.rs
@@ -22,7 +22,7 @@ macro_rules! impl_unchecked_num_traits_with_field {
             fn sub(self, other: Self) -> Self {
                 let x = self.$field;
                 let y = other.$field;
-                Self::from(x + y)
+                Self::from(x - y)
             }
         }
 
-- 
2.43.0


From dac3c377589dd8bd6c9f1b58f62c5449f492e247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 16/47] fix: shifting a binary number out of its bits is an
 overflow error, not a panic

---
 prexel/src/binary/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/prexel/src/binary/mod.rs b/prexel/src/binary/mod.rs
index ddecd6a..92b164e 100644
--- a/prexel/src/binary/mod.rs
+++ b/prexel/src/binary/mod.rs
@@ -102,6 +102,7 @@ pub fn binary_number_splitter<'a>() -> DefaultSplitter<'a> {
 
 pub mod math {
     use crate::binary::Binary;
+    use crate::error::{Error, ErrorKind};
     use crate::function::{Associativity, BinaryFunction, Notation, Precedence, UnaryFunction};
 
     pub struct NotFunction;
@@ -376,6 +377,15 @@ pub mod math {
         }
     }
 
+    // Gets the number of bits to shift, which must be less than the bits of the number.
+    fn shift_amount(value: Binary) -> crate::Result<i128> {
+        if (0..i128::from(i128::BITS)).contains(&value.0) {
+            Ok(value.0)
+        } else {
+            Err(Error::from(ErrorKind::Overflow))
+        }
+    }
+
     pub struct ShrFunction;
     impl BinaryFunction<Binary> for ShrFunction {
         fn name(&self) -> &str {
@@ -395,7 +405,7 @@ pub mod math {
         }
 
         fn call(&self, left: Binary, right: Binary) -> crate::Result<Binary> {
-            Ok(Binary(left.0 >> right.0))
+            Ok(Binary(left.0 >> shift_amount(right)?))
         }
 
         fn description(&self) -> Option<&str> {
@@ -422,7 +432,7 @@ pub mod math {
         }
 
         fn call(&self, left: Binary, right: Binary) -> crate::Result<Binary> {
-            Ok(Binary(left.0 << right.0))
+            Ok(Binary(left.0 << shift_amount(right)?))
         }
 
         fn description(&self) -> Option<&str> {
-- 
2.43.0


From ab80e602fbb241589d526d10a2b6b16c0bd2d305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 17/47] fix: complex logarithm takes a real base, not only a
 non real one

---
 prexel/src/complex/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index d5f4286..1cc4b59 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -51,7 +51,7 @@ pub mod ops {
                    Ok(args[0].log(base))
                 },
                 2 => match args[1].im {
-                    n if !n.is_zero() => {
+                    n if n.is_zero() => {
                         Ok(args[0].log(args[1].re))
                     },
                     _ => Err(Error::new(ErrorKind::InvalidInput, "Expected decimal base")),
-- 
2.43.0


From a7dc1b9daaf67a4d4ac8e9c3159a4f049af9f3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 18/47] fix: complex random only rejects a range whose minimum
 is over its maximum

---
 prexel/src/complex/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 1cc4b59..3a7a928 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -110,7 +110,7 @@ pub mod ops {
                 2 => {
                     let min = try_get_real(&args[0])?;
                     let max = try_get_real(&args[1])?;
-                    if min.is_sign_negative() || max.is_sign_negative(){
+                    if min > max {
                         return Err(Error::new(
                             ErrorKind::InvalidInput,
                             format!("Invalid `Random` arguments: `min > max`, {} > {}", min, max)
-- 
2.43.0


From a5a60e7b5ce380d891320c1ba2e80d3139d8fa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 19/47] fix: powers of the complex 0

---
 prexel/src/complex/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 3a7a928..fe6aee3 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -2,7 +2,7 @@ pub type Complex<T> = num_complex::Complex<T>;
 
 pub mod ops {
     use num_complex::Complex;
-    use num_traits::{Float, FromPrimitive};
+    use num_traits::{Float, FromPrimitive, One, Zero};
     use rand::random;
     use std::fmt::{Display, Debug};
 
@@ -28,6 +28,17 @@ pub mod ops {
         }
 
         fn call(&self, left: Complex<T>, right: Complex<T>) -> Result<Complex<T>> {
+            // `powc` is not defined for a base of 0
+            if left.is_zero() {
+                return if right.is_zero() {
+                    Ok(Complex::one())
+                } else if right.re > T::zero() {
+                    Ok(left)
+                } else {
+                    Err(Error::from(ErrorKind::DivisionByZero))
+                };
+            }
+
             Ok(Complex::powc(&left, right))
         }
 
-- 
2.43.0


From be44462e668c6aafa891c3c4ae1c1ebf2a1d5fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 20/47] fix: complex reciprocal inverses invert the argument,
 not the result

---
 prexel/src/complex/mod.rs | 64 +++++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index fe6aee3..8b16f53 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -186,6 +186,24 @@ pub mod ops {
         };
     }
 
+    #[cfg(not(feature = "docs"))]
+    macro_rules! forward_impl_func_of_inv {
+        ($t:ty, $method_name:ident, $name:ident) => {
+            impl<T> Function<Complex<T>> for $t where T: Float {
+                fn name(&self) -> &str {
+                    stringify!($name)
+                }
+
+                fn call(&self, args: &[Complex<T>]) -> Result<Complex<T>> {
+                    match args.len() {
+                        1 => Ok(args[0].inv().$method_name()),
+                        _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                    }
+                }
+            }
+        };
+    }
+
     #[cfg(feature = "docs")]
     macro_rules! forward_impl_func {
         ($t:ty, $method_name:ident, $description:expr) => {
@@ -238,6 +256,28 @@ pub mod ops {
         };
     }
 
+    #[cfg(feature = "docs")]
+    macro_rules! forward_impl_func_of_inv {
+        ($t:ty, $method_name:ident, $name:ident, $description:expr) => {
+            impl<T> Function<Complex<T>> for $t where T: Float {
+                fn name(&self) -> &str {
+                    stringify!($name)
+                }
+
+                fn call(&self, args: &[Complex<T>]) -> Result<Complex<T>> {
+                    match args.len() {
+                        1 => Ok(args[0].inv().$method_name()),
+                        _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                    }
+                }
+
+                fn description(&self) -> Option<&str> {
+                    Some($description.into())
+                }
+            }
+        };
+    }
+
     pub struct SqrtFunction;
     #[cfg(not(feature = "docs"))]
     forward_impl_func!(SqrtFunction, sqrt);
@@ -316,21 +356,21 @@ pub mod ops {
 
     pub struct ACscFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACscFunction, asin, acsc);
+    forward_impl_func_of_inv!(ACscFunction, asin, acsc);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACscFunction, asin, acsc, Description::ACsc);
+    forward_impl_func_of_inv!(ACscFunction, asin, acsc, Description::ACsc);
 
     pub struct ASecFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ASecFunction, acos, asec);
+    forward_impl_func_of_inv!(ASecFunction, acos, asec);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ASecFunction, acos, asec, Description::ASec);
+    forward_impl_func_of_inv!(ASecFunction, acos, asec, Description::ASec);
 
     pub struct ACotFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACotFunction, atan, acot);
+    forward_impl_func_of_inv!(ACotFunction, atan, acot);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACotFunction, atan, acot, Description::ACot);
+    forward_impl_func_of_inv!(ACotFunction, atan, acot, Description::ACot);
 
     //////////////////// Hyperbolic Trigonometric ////////////////////
 
@@ -392,21 +432,21 @@ pub mod ops {
 
     pub struct ACschFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACschFunction, asinh, acsch);
+    forward_impl_func_of_inv!(ACschFunction, asinh, acsch);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACschFunction, asinh, acsch, Description::ACsch);
+    forward_impl_func_of_inv!(ACschFunction, asinh, acsch, Description::ACsch);
 
     pub struct ASechFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ASechFunction, acosh, asech);
+    forward_impl_func_of_inv!(ASechFunction, acosh, asech);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ASechFunction, acosh, asech, Description::ASech);
+    forward_impl_func_of_inv!(ASechFunction, acosh, asech, Description::ASech);
 
     pub struct ACothFunction;
     #[cfg(not(feature = "docs"))]
-    forward_impl_func_inv!(ACothFunction, atanh, acoth);
+    forward_impl_func_of_inv!(ACothFunction, atanh, acoth);
     #[cfg(feature = "docs")]
-    forward_impl_func_inv!(ACothFunction, atanh, acoth, Description::ACoth);
+    forward_impl_func_of_inv!(ACothFunction, atanh, acoth, Description::ACoth);
 }
 
 pub mod context {
-- 
2.43.0


From 2b6f5c04fcdaadd87cdfeaf7fcab252937b8cf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 21/47] fix: decimal powers of 0, of large exponents and next
 to the overflow

---
 prexel/src/decimal/decimal_ext.rs | 40 +++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 4147b1f..ac9956a 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -67,11 +67,27 @@ impl DecimalExt for Decimal {
 
     fn checked_powd(self, exponent: Decimal) -> Option<Decimal> {
         if exponent.is_integer() {
-            return self.checked_powi(exponent.to_i64().unwrap());
+            if let Some(exponent) = exponent.to_i64() {
+                return self.checked_powi(exponent);
+            }
+
+            // Only the powers of 0, 1 and -1 have a value for an exponent this large
+            return if self.is_zero() {
+                Decimal::checked_powi(self, if exponent.is_sign_negative() { -1 } else { 1 })
+            } else if self.abs().is_one() {
+                Decimal::checked_powi(self, (exponent % consts::TWO).to_i64()?)
+            } else {
+                None
+            };
         }
 
         if self.is_zero() {
-            return Some(Decimal::one());
+            // 0 ^ n = 0, and 0 ^ -n = 1 / 0
+            return if exponent.is_sign_negative() {
+                None
+            } else {
+                Some(self)
+            };
         }
 
         if self.is_one() {
@@ -89,7 +105,7 @@ impl DecimalExt for Decimal {
         Some(result)
     }
 
-    fn checked_powi(self, mut exponent: i64) -> Option<Decimal> {
+    fn checked_powi(self, exponent: i64) -> Option<Decimal> {
         if exponent == 0 {
             return Some(Decimal::one());
         }
@@ -98,22 +114,26 @@ impl DecimalExt for Decimal {
             return Some(self);
         }
 
-        if exponent < 0 {
-            return Self::checked_powi(Decimal::one() / self, -exponent);
-        }
-
         let mut result = Decimal::one();
-        let mut base = self;
+        let mut base = if exponent < 0 {
+            self.checked_inv()?
+        } else {
+            self
+        };
+        let mut exponent = exponent.unsigned_abs();
 
         while exponent > 0 {
             // If exponent is odd
             if exponent & 1 != 0 {
                 result = result.checked_mul(base)?;
-                exponent -= 1
             }
 
-            base = base.checked_mul(base)?;
             exponent >>= 1;
+
+            // The last square is not part of the result
+            if exponent > 0 {
+                base = base.checked_mul(base)?;
+            }
         }
 
         Some(result)
-- 
2.43.0


From 38e5edd2d22c7740198008138aab5ac70cf60d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 22/47] fix: decimal roots end, and reach 0 and the large
 values

---
 prexel/src/decimal/decimal_ext.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index ac9956a..04edcad 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -140,10 +140,14 @@ impl DecimalExt for Decimal {
     }
 
     fn checked_sqrt(self) -> Option<Decimal> {
-        if self.is_sign_negative() {
+        if self < Decimal::zero() {
             return None;
         }
 
+        if self.is_zero() {
+            return Some(self);
+        }
+
         // Using Babylonian Method
         // See: https://en.wikipedia.org/wiki/Methods_of_computing_square_roots#Babylonian_method
 
@@ -151,7 +155,12 @@ impl DecimalExt for Decimal {
         let mut result = Decimal::from_f64(self.to_f64()?.sqrt())?;
         let mut x = Decimal::zero();
 
-        while x != result {
+        // The last digit may never settle
+        for _ in 0..consts::TAYLOR_SERIES_ITERATIONS {
+            if x == result {
+                break;
+            }
+
             x = result;
 
             // result = 0.5 * ( value / x + result )
@@ -165,11 +174,12 @@ impl DecimalExt for Decimal {
     }
 
     fn checked_cbrt(self) -> Option<Decimal> {
-        if self.is_one() {
+        if self.is_one() || self.is_zero() {
             return Some(self);
         }
 
-        let mut x = Decimal::one();
+        // Initial approximation
+        let mut x = Decimal::from_f64(self.to_f64()?.cbrt())?;
 
         // Using Newton's Method
         // See: https://en.wikipedia.org/wiki/Cube_root#Numerical_methods
-- 
2.43.0


From 88c455cc46e71dcba6f4702886ef52ebf01e0637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 23/47] fix: decimal logarithm of the values near to 0

---
 prexel/src/decimal/decimal_ext.rs | 7 +++++++
 prexel/src/decimal/mod.rs         | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 04edcad..1481fa6 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -233,6 +233,13 @@ impl DecimalExt for Decimal {
             return Some(result);
         }
 
+        // The series converges too slowly for the values near to 0:
+        // ln(x) = ln(x * 10) - ln(10)
+        if self < consts::ONE_FRACT_10 {
+            let lna = Self::checked_ln(self.checked_mul(consts::TEN)?)?;
+            return lna.checked_sub(consts::LN_10);
+        }
+
         // See: https://en.wikipedia.org/wiki/Logarithm#Power_series
         // Error: ~0.0000000000000000000000000007
         const ITERATIONS: u32 = consts::TAYLOR_SERIES_ITERATIONS * 10;
diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index be3abc7..72593ac 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -50,6 +50,8 @@ pub mod consts {
     pub const HALF: Decimal = dec!(0.5);
     /// 1/3
     pub const ONE_FRACT_3: Decimal = dec!(0.3333333333333333333333333333);
+    /// 1/10
+    pub const ONE_FRACT_10: Decimal = dec!(0.1);
     /// -1
     pub const ONE_MINUS: Decimal = dec!(-1);
     /// 0
-- 
2.43.0


From fc491bab3374799f20ed4e9708d76dd220ba0aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 24/47] fix: decimal exponential and hyperbolics of the values
 away from 0

---
 prexel/src/decimal/decimal_ext.rs | 28 ++++++++++++++++++++++++++--
 prexel/src/decimal/mod.rs         |  1 +
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 1481fa6..1bdef87 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -269,6 +269,21 @@ impl DecimalExt for Decimal {
             return Some(consts::E);
         }
 
+        if self < Decimal::zero() {
+            // e^-x = 1 / e^x, and is 0 when e^x is too large
+            return match self.neg().checked_exp() {
+                Some(e) => e.checked_inv(),
+                None => Some(Decimal::zero()),
+            };
+        }
+
+        if self > Decimal::one() {
+            // e^(n + x) = e^n * e^x, the fraction only converges for a small x
+            let n = consts::E.checked_powi(self.trunc().to_i64()?)?;
+            let result = n.checked_mul(self.fract().checked_exp()?)?;
+            return Some(result.approx());
+        }
+
         debug_assert!(consts::TAYLOR_SERIES_ITERATIONS > 0);
 
         // Using Continued fraction
@@ -513,7 +528,7 @@ impl DecimalExt for Decimal {
         // formula: sinh(x) = (e^x - e^-x)/2
         let e0 = self.checked_exp()?;
         let e1 = self.neg().checked_exp()?;
-        let result = (e0 - e1) / consts::TWO;
+        let result = e0.checked_sub(e1)? / consts::TWO;
         Some(result)
     }
 
@@ -521,11 +536,20 @@ impl DecimalExt for Decimal {
         // formula: cosh(x) = (e^x + e^-x)/2
         let e0 = self.checked_exp()?;
         let e1 = self.neg().checked_exp()?;
-        let result = (e0 + e1) / consts::TWO;
+        let result = e0.checked_add(e1)? / consts::TWO;
         Some(result)
     }
 
     fn tanh(self) -> Option<Decimal> {
+        // The difference to 1 is too small to be represented
+        if self.abs() > consts::TANH_LIMIT {
+            return Some(if self < consts::ZERO {
+                consts::ONE_MINUS
+            } else {
+                consts::ONE
+            });
+        }
+
         let result = self.sinh()? / self.cosh()?;
         Some(result)
     }
diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 72593ac..0392f4b 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -9,6 +9,7 @@ pub mod consts {
     use rust_decimal_macros::*;
 
     pub(crate) const TAYLOR_SERIES_ITERATIONS: u32 = 100;
+    pub(crate) const TANH_LIMIT: Decimal = dec!(40);
     pub(crate) const PRECISION: Decimal = dec!(0.0000000000000001);
 
     //////////////////////// Constants ////////////////////////
-- 
2.43.0


From 55a493ef34aaf888e78edef395855d482933c9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 25/47] fix: decimal factorial of 2, and of the values just
 over a whole number

---
 prexel/src/decimal/decimal_ext.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 1bdef87..e04edd4 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -315,11 +315,11 @@ impl DecimalExt for Decimal {
         // To reduce errors
         const MAX_DECIMAL_PLACES: u32 = 15;
 
-        if self.is_sign_negative() {
+        if self < consts::ZERO {
             return None;
         }
 
-        if self == consts::TWO || self == consts::ONE || self == consts::ZERO {
+        if self == consts::ONE || self == consts::ZERO {
             return Some(Decimal::one());
         }
 
@@ -330,13 +330,13 @@ impl DecimalExt for Decimal {
         let mut result = self;
         let mut n = self - Decimal::one();
 
-        while n > Decimal::zero() {
+        while n >= Decimal::one() {
             result = result.checked_mul(n)?;
             n -= Decimal::one();
         }
 
         if !n.is_zero() {
-            result *= gamma(n + consts::ONE)?;
+            result = result.checked_mul(gamma(n + consts::ONE)?)?;
         }
 
         Some(result.round_dp(MAX_DECIMAL_PLACES))
-- 
2.43.0


From 862221ab82e14ba48768f8a68f32574ecffce735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 26/47] fix: decimal arc tangent of two arguments on the y axis

---
 prexel/src/decimal/decimal_ext.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index e04edd4..bca73d4 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -506,14 +506,19 @@ impl DecimalExt for Decimal {
 
         if x.is_zero() {
             return if self > consts::ZERO {
-                consts::PI_2
+                consts::PI_FRACT_2
             } else {
-                consts::PI_2_MINUS
+                -consts::PI_FRACT_2
             };
         }
 
         // Θ = arctan(y / x)
-        let atan2 = Decimal::atan(self / x);
+        let atan2 = match self.checked_div(x) {
+            Some(tan) => Decimal::atan(tan),
+            // x is nothing compared to y
+            None if self > consts::ZERO => return consts::PI_FRACT_2,
+            None => return -consts::PI_FRACT_2,
+        };
 
         if x > consts::ZERO {
             atan2
-- 
2.43.0


From dcddf72fdf587406b0398e9c58dfceaf42226803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 27/47] fix: decimal inverse hyperbolics of large and negative
 values

---
 prexel/src/decimal/decimal_ext.rs | 17 ++++++++++++++++-
 prexel/src/decimal/mod.rs         |  1 +
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index bca73d4..8f5df2f 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -560,6 +560,16 @@ impl DecimalExt for Decimal {
     }
 
     fn asinh(self) -> Decimal {
+        // asinh(-x) = -asinh(x), x + sqrt(x^2 + 1) would be lost near to 0
+        if self < consts::ZERO {
+            return -Decimal::asinh(-self);
+        }
+
+        // x^2 + 1 is too large, but then sqrt(x^2 + 1) = x
+        if self > consts::SQUARE_LIMIT {
+            return Decimal::checked_ln(self).unwrap() + consts::LN_2;
+        }
+
         // formula: asinh(x) = ln(x + sqrt(x^2 + 1))
         let x2 = self * self;
         Decimal::checked_ln(self + Decimal::checked_sqrt(x2 + consts::ONE).unwrap()).unwrap()
@@ -570,13 +580,18 @@ impl DecimalExt for Decimal {
             return None;
         }
 
+        // x^2 - 1 is too large, but then sqrt(x^2 - 1) = x
+        if self > consts::SQUARE_LIMIT {
+            return Decimal::checked_ln(self)?.checked_add(consts::LN_2);
+        }
+
         // formula: acosh(x) = ln(x + sqrt(x^2 - 1))
         let x2 = self * self;
         Decimal::checked_ln(self + Decimal::checked_sqrt(x2 - consts::ONE)?)
     }
 
     fn atanh(self) -> Option<Decimal> {
-        if self < consts::ONE_MINUS || self > consts::ONE {
+        if self <= consts::ONE_MINUS || self >= consts::ONE {
             return None;
         }
 
diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 0392f4b..8fd0e02 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -10,6 +10,7 @@ pub mod consts {
 
     pub(crate) const TAYLOR_SERIES_ITERATIONS: u32 = 100;
     pub(crate) const TANH_LIMIT: Decimal = dec!(40);
+    pub(crate) const SQUARE_LIMIT: Decimal = dec!(100000000000000);
     pub(crate) const PRECISION: Decimal = dec!(0.0000000000000001);
 
     //////////////////////// Constants ////////////////////////
-- 
2.43.0


From 3d12f6f137bc345fe265fbf582ef1cc03841306e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 28/47] fix: decimal csc, sec and cot invert their sin, cos and
 tan

---
 prexel/src/decimal/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 8fd0e02..c7f5651 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -751,7 +751,7 @@ mod trig_ops {
                         1 => args[0]
                             .to_radians()
                             .$method_name()
-                            //.map(Decimal::checked_inv)
+                            .and_then(Decimal::checked_inv)
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
@@ -858,7 +858,7 @@ mod trig_ops {
                         1 => args[0]
                             .to_radians()
                             .$method_name()
-                            //.map(Decimal::checked_inv)
+                            .and_then(Decimal::checked_inv)
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
-- 
2.43.0


From 18380a4ed4049859954ef0daa12f8c0c04c30a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 29/47] fix: decimal sum, product and avg out of range are
 overflow errors

---
 prexel/src/decimal/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index c7f5651..02ee532 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -543,7 +543,10 @@ mod math_ops {
                 match result {
                     None => result = Some(*cur),
                     Some(ref n) => {
-                        result = Some(*n + *cur);
+                        result = Some(
+                            n.checked_add(*cur)
+                                .ok_or_else(|| Error::from(ErrorKind::Overflow))?,
+                        );
                     }
                 }
             }
@@ -570,7 +573,10 @@ mod math_ops {
                 match result {
                     None => result = Some(*cur),
                     Some(ref n) => {
-                        result = Some(n * cur);
+                        result = Some(
+                            n.checked_mul(*cur)
+                                .ok_or_else(|| Error::from(ErrorKind::Overflow))?,
+                        );
                     }
                 }
             }
@@ -597,7 +603,10 @@ mod math_ops {
                 match sum {
                     None => sum = Some(*cur),
                     Some(ref n) => {
-                        sum = Some(*n + *cur);
+                        sum = Some(
+                            n.checked_add(*cur)
+                                .ok_or_else(|| Error::from(ErrorKind::Overflow))?,
+                        );
                     }
                 }
             }
-- 
2.43.0


From d1c45b3fc917282303f5a8cd1ee68494f4741a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 30/47] fix: decimal to_degrees out of range is an overflow
 error

---
 prexel/src/decimal/decimal_ext.rs | 7 +++++++
 prexel/src/decimal/mod.rs         | 9 +++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 8f5df2f..5a7d511 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -10,6 +10,7 @@ pub trait DecimalExt {
     fn is_integer(&self) -> bool;
     fn to_radians(&self) -> Decimal;
     fn to_degrees(&self) -> Decimal;
+    fn checked_to_degrees(&self) -> Option<Decimal>;
     fn inv(self) -> Decimal;
     fn checked_inv(self) -> Option<Decimal>;
     fn checked_powd(self, exponent: Decimal) -> Option<Decimal>;
@@ -51,6 +52,12 @@ impl DecimalExt for Decimal {
         (self * (dec!(180) / consts::PI)).approx()
     }
 
+    #[inline]
+    fn checked_to_degrees(&self) -> Option<Decimal> {
+        self.checked_mul(dec!(180) / consts::PI)
+            .map(|degrees| degrees.approx())
+    }
+
     #[inline]
     fn inv(self) -> Decimal {
         consts::ONE / self
diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 02ee532..0420798 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -703,9 +703,14 @@ mod math_ops {
 
     pub struct ToDegreesFunction;
     #[cfg(not(feature = "docs"))]
-    forward_func_impl!(ToDegreesFunction, to_degrees, to_degrees);
+    forward_checked_func_impl!(ToDegreesFunction, checked_to_degrees, to_degrees);
     #[cfg(feature = "docs")]
-    forward_func_impl!(ToDegreesFunction, to_degrees, to_degrees, Description::ToDegrees);
+    forward_checked_func_impl!(
+        ToDegreesFunction,
+        checked_to_degrees,
+        to_degrees,
+        Description::ToDegrees
+    );
 }
 
 mod trig_ops {
-- 
2.43.0


From 30573fe17574980762b5570dda38546b6c0c33c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 31/47] fix: decimal inverse trigonometric functions take a
 ratio and return degrees

---
 prexel/src/decimal/mod.rs | 82 +++++++++++++++++++++++++++++++++------
 1 file changed, 70 insertions(+), 12 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 0420798..2ed7798 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -926,6 +926,56 @@ mod trig_ops {
     impl_checked_trig_rec!(CotFunction, checked_tan, cot, Description::Cot);
 
     //////////////////// Inverse Trigonometric ////////////////////
+    #[cfg(not(feature = "docs"))]
+    macro_rules! impl_checked_arc_trig {
+        ($struct_name:ident, $method_name:ident) => {
+            impl Function<Decimal> for $struct_name {
+                #[inline]
+                fn name(&self) -> &str {
+                    stringify!($method_name)
+                }
+
+                #[inline]
+                fn call(&self, args: &[Decimal]) -> Result<Decimal> {
+                    match args.len() {
+                        1 => args[0]
+                            .$method_name()
+                            .map(|radians| radians.to_degrees())
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow)),
+                        _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                    }
+                }
+            }
+        };
+    }
+
+    #[cfg(feature = "docs")]
+    macro_rules! impl_checked_arc_trig {
+        ($struct_name:ident, $method_name:ident, $description:expr) => {
+            impl Function<Decimal> for $struct_name {
+                #[inline]
+                fn name(&self) -> &str {
+                    stringify!($method_name)
+                }
+
+                #[inline]
+                fn call(&self, args: &[Decimal]) -> Result<Decimal> {
+                    match args.len() {
+                        1 => args[0]
+                            .$method_name()
+                            .map(|radians| radians.to_degrees())
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow)),
+                        _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                    }
+                }
+
+                fn description(&self) -> Option<&str> {
+                    Some($description.into())
+                }
+            }
+        };
+    }
+
     #[cfg(not(feature = "docs"))]
     macro_rules! impl_arc_trig_rec {
         ($struct_name:ident, $method_name:ident, $name:ident) => {
@@ -938,7 +988,10 @@ mod trig_ops {
                 #[inline]
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
-                        1 => Ok(args[0].$method_name()),
+                        1 => args[0]
+                            .checked_inv()
+                            .map(|n| n.$method_name().to_degrees())
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
                 }
@@ -963,8 +1016,9 @@ mod trig_ops {
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
                         1 => args[0]
-                            .inv()
-                            .$method_name()
+                            .checked_inv()
+                            .and_then(|n| n.$method_name())
+                            .map(|radians| radians.to_degrees())
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
@@ -989,7 +1043,10 @@ mod trig_ops {
                 #[inline]
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
-                        1 => Ok(args[0].$method_name()),
+                        1 => args[0]
+                            .checked_inv()
+                            .map(|n| n.$method_name().to_degrees())
+                            .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
                 }
@@ -1018,8 +1075,9 @@ mod trig_ops {
                 fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                     match args.len() {
                         1 => args[0]
-                            .inv()
-                            .$method_name()
+                            .checked_inv()
+                            .and_then(|n| n.$method_name())
+                            .map(|radians| radians.to_degrees())
                             .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                         _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                     }
@@ -1038,15 +1096,15 @@ mod trig_ops {
 
     pub struct ASinFunction;
     #[cfg(not(feature = "docs"))]
-    impl_checked_trig!(ASinFunction, asin);
+    impl_checked_arc_trig!(ASinFunction, asin);
     #[cfg(feature = "docs")]
-    impl_checked_trig!(ASinFunction, asin, Description::ASin);
+    impl_checked_arc_trig!(ASinFunction, asin, Description::ASin);
 
     pub struct ACosFunction;
     #[cfg(not(feature = "docs"))]
-    impl_checked_trig!(ACosFunction, acos);
+    impl_checked_arc_trig!(ACosFunction, acos);
     #[cfg(feature = "docs")]
-    impl_checked_trig!(ACosFunction, acos, Description::ACos);
+    impl_checked_arc_trig!(ACosFunction, acos, Description::ACos);
 
     pub struct ATanFunction;
     impl Function<Decimal> for ATanFunction {
@@ -1058,8 +1116,8 @@ mod trig_ops {
         #[inline]
         fn call(&self, args: &[Decimal]) -> Result<Decimal> {
             match args.len() {
-                1 => Ok(args[0].atan()),
-                2 => Ok(args[0].atan2(args[1])),
+                1 => Ok(args[0].atan().to_degrees()),
+                2 => Ok(args[0].atan2(args[1]).to_degrees()),
                 _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
             }
         }
-- 
2.43.0


From 35d4afc33bcf5e4dae3805bc0e71f7ae3c40f259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 32/47] fix: decimal inverse hyperbolic reciprocals invert the
 argument, not the result

---
 prexel/src/decimal/mod.rs | 88 +++++++++++++++++++++++++++++++++------
 1 file changed, 76 insertions(+), 12 deletions(-)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 2ed7798..7ebf25b 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -122,6 +122,33 @@ macro_rules! forward_checked_func_inv_impl {
     };
 }
 
+#[cfg(not(feature = "docs"))]
+macro_rules! forward_checked_func_of_inv_impl {
+    ($struct_name:ident, $method_name:ident, $name:ident) => {
+        impl Function<Decimal> for $struct_name {
+            #[inline]
+            fn name(&self) -> &str {
+                stringify!($name)
+            }
+
+            #[inline]
+            fn call(&self, args: &[Decimal]) -> Result<Decimal> {
+                match args.len() {
+                    1 => args[0]
+                        .checked_inv()
+                        .and_then(|n| n.$method_name())
+                        .ok_or_else(|| Error::from(ErrorKind::Overflow)),
+                    _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                }
+            }
+        }
+    };
+
+    ($struct_name:ident, $method_name:ident) => {
+        forward_checked_func_of_inv_impl!($struct_name, $method_name, $method_name)
+    };
+}
+
 #[cfg(not(feature = "docs"))]
 macro_rules! forward_func_impl {
     ($struct_name:ident, $method_name:ident, $name:ident) => {
@@ -147,7 +174,7 @@ macro_rules! forward_func_impl {
 }
 
 #[cfg(not(feature = "docs"))]
-macro_rules! forward_func_inv_impl {
+macro_rules! forward_func_of_inv_impl {
     ($struct_name:ident, $method_name:ident, $name:ident) => {
         impl Function<Decimal> for $struct_name {
             #[inline]
@@ -158,7 +185,10 @@ macro_rules! forward_func_inv_impl {
             #[inline]
             fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                 match args.len() {
-                    1 => Ok(args[0].$method_name().inv()),
+                    1 => args[0]
+                        .checked_inv()
+                        .map(|n| n.$method_name())
+                        .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                     _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                 }
             }
@@ -166,7 +196,7 @@ macro_rules! forward_func_inv_impl {
     };
 
     ($struct_name:ident, $method_name:ident) => {
-        forward_func_inv_impl!($struct_name, $method_name, $method_name);
+        forward_func_of_inv_impl!($struct_name, $method_name, $method_name);
     };
 }
 
@@ -232,6 +262,37 @@ macro_rules! forward_checked_func_inv_impl {
     };
 }
 
+#[cfg(feature = "docs")]
+macro_rules! forward_checked_func_of_inv_impl {
+    ($struct_name:ident, $method_name:ident, $name:ident, $description:expr) => {
+        impl Function<Decimal> for $struct_name {
+            #[inline]
+            fn name(&self) -> &str {
+                stringify!($name)
+            }
+
+            #[inline]
+            fn call(&self, args: &[Decimal]) -> Result<Decimal> {
+                match args.len() {
+                    1 => args[0]
+                        .checked_inv()
+                        .and_then(|n| n.$method_name())
+                        .ok_or_else(|| Error::from(ErrorKind::Overflow)),
+                    _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
+                }
+            }
+
+            fn description(&self) -> Option<&str> {
+                Some($description.into())
+            }
+        }
+    };
+
+    ($struct_name:ident, $method_name:ident, $description:expr) => {
+        forward_checked_func_of_inv_impl!($struct_name, $method_name, $method_name, $description);
+    };
+}
+
 #[cfg(feature = "docs")]
 macro_rules! forward_func_impl {
     ($struct_name:ident, $method_name:ident, $name:ident, $description:expr) => {
@@ -261,7 +322,7 @@ macro_rules! forward_func_impl {
 }
 
 #[cfg(feature = "docs")]
-macro_rules! forward_func_inv_impl {
+macro_rules! forward_func_of_inv_impl {
     ($struct_name:ident, $method_name:ident, $name:ident, $description:expr) => {
         impl Function<Decimal> for $struct_name {
             #[inline]
@@ -272,7 +333,10 @@ macro_rules! forward_func_inv_impl {
             #[inline]
             fn call(&self, args: &[Decimal]) -> Result<Decimal> {
                 match args.len() {
-                    1 => Ok(args[0].$method_name().inv()),
+                    1 => args[0]
+                        .checked_inv()
+                        .map(|n| n.$method_name())
+                        .ok_or_else(|| Error::from(ErrorKind::Overflow)),
                     _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
                 }
             }
@@ -284,7 +348,7 @@ macro_rules! forward_func_inv_impl {
     };
 
     ($struct_name:ident, $method_name:ident, $description:expr) => {
-        forward_func_inv_impl!($struct_name, $method_name, $method_name, $description);
+        forward_func_of_inv_impl!($struct_name, $method_name, $method_name, $description);
     };
 }
 
@@ -1204,21 +1268,21 @@ mod trig_ops {
 
     pub struct ACschFunction;
     #[cfg(not(feature = "docs"))]
-    forward_func_inv_impl!(ACschFunction, asinh, acsch);
+    forward_func_of_inv_impl!(ACschFunction, asinh, acsch);
     #[cfg(feature = "docs")]
-    forward_func_inv_impl!(ACschFunction, asinh, acsch, Description::ACsch);
+    forward_func_of_inv_impl!(ACschFunction, asinh, acsch, Description::ACsch);
 
     pub struct ASechFunction;
     #[cfg(not(feature = "docs"))]
-    forward_checked_func_inv_impl!(ASechFunction, acosh, asech);
+    forward_checked_func_of_inv_impl!(ASechFunction, acosh, asech);
     #[cfg(feature = "docs")]
-    forward_checked_func_inv_impl!(ASechFunction, acosh, asech, Description::ASech);
+    forward_checked_func_of_inv_impl!(ASechFunction, acosh, asech, Description::ASech);
 
     pub struct ACothFunction;
     #[cfg(not(feature = "docs"))]
-    forward_checked_func_inv_impl!(ACothFunction, atanh, acoth);
+    forward_checked_func_of_inv_impl!(ACothFunction, atanh, acoth);
     #[cfg(feature = "docs")]
-    forward_checked_func_inv_impl!(ACothFunction, atanh, acoth, Description::ACoth);
+    forward_checked_func_of_inv_impl!(ACothFunction, atanh, acoth, Description::ACoth);
 }
 
 pub mod context {
-- 
2.43.0


From 0eb7764071d561a242a1c0ae86bf83c90ccc346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 33/47] fix: a REPL history of size 0 keeps nothing instead of
 panicking

---
 eval/src/collections/carray.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eval/src/collections/carray.rs b/eval/src/collections/carray.rs
index aab30bc..f5d7139 100644
--- a/eval/src/collections/carray.rs
+++ b/eval/src/collections/carray.rs
@@ -18,6 +18,10 @@ impl<T> CircularArray<T> {
     }
 
     pub fn push(&mut self, item: T) {
+        if self.cap == 0 {
+            return;
+        }
+
         if self.data.len() == self.cap {
             self.data.remove(0);
         }
-- 
2.43.0


From f74737cb2037cdf993c911b8ab749546d6d3477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 34/47] fix: truncate and sign keep their names when the docs
 feature is on

---
 prexel/src/ops/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 8ce1c53..741ff69 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -545,7 +545,7 @@ mod math_ops {
     forward_func_impl!(TruncateFunction, trunc, truncate);
 
     #[cfg(feature = "docs")]
-    forward_func_impl!(TruncateFunction, trunc, Description::Truncate);
+    forward_func_impl!(TruncateFunction, trunc, truncate, Description::Truncate);
 
     pub struct RoundFunction;
     #[cfg(not(feature = "docs"))]
@@ -559,7 +559,7 @@ mod math_ops {
     forward_func_impl!(SignFunction, signum, sign);
 
     #[cfg(feature = "docs")]
-    forward_func_impl!(SignFunction, signum, Description::Sign);
+    forward_func_impl!(SignFunction, signum, sign, Description::Sign);
 
     pub struct SqrtFunction;
     #[cfg(not(feature = "docs"))]
-- 
2.43.0


From 6fea41afde6fc4737976c16ff75f5e14b68a1a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:55 +0000
Subject: [PATCH 35/47] fix: decimal cotangent of 90 degrees is 0, not an error

---
 prexel/src/decimal/decimal_ext.rs | 11 +++++++++++
 prexel/src/decimal/mod.rs         |  4 ++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/prexel/src/decimal/decimal_ext.rs b/prexel/src/decimal/decimal_ext.rs
index 5a7d511..9b740ab 100644
--- a/prexel/src/decimal/decimal_ext.rs
+++ b/prexel/src/decimal/decimal_ext.rs
@@ -24,6 +24,7 @@ pub trait DecimalExt {
     fn checked_sin(self) -> Option<Decimal>;
     fn checked_cos(self) -> Option<Decimal>;
     fn checked_tan(self) -> Option<Decimal>;
+    fn checked_cot(self) -> Option<Decimal>;
     fn asin(self) -> Option<Decimal>;
     fn acos(self) -> Option<Decimal>;
     fn atan(self) -> Decimal;
@@ -419,6 +420,16 @@ impl DecimalExt for Decimal {
         }
     }
 
+    fn checked_cot(self) -> Option<Decimal> {
+        let sin = self.checked_sin()?;
+        if sin.is_zero() {
+            None
+        } else {
+            let result = self.checked_cos()? / sin;
+            Some(result.approx())
+        }
+    }
+
     fn asin(self) -> Option<Decimal> {
         if self < consts::ONE_MINUS || self > consts::ONE {
             None
diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 7ebf25b..09e5458 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -985,9 +985,9 @@ mod trig_ops {
 
     pub struct CotFunction;
     #[cfg(not(feature = "docs"))]
-    impl_checked_trig_rec!(CotFunction, checked_tan, cot);
+    impl_checked_trig!(CotFunction, checked_cot, cot);
     #[cfg(feature = "docs")]
-    impl_checked_trig_rec!(CotFunction, checked_tan, cot, Description::Cot);
+    impl_checked_trig!(CotFunction, checked_cot, cot, Description::Cot);
 
     //////////////////// Inverse Trigonometric ////////////////////
     #[cfg(not(feature = "docs"))]
-- 
2.43.0


From c0a60fc8024e6034ca42d9663c129e1c20f31639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 36/47] fix: the tangent of a pole is an error, not a very
 large number

---
 prexel/src/ops/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 741ff69..6220269 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -694,6 +694,9 @@ mod trig_ops {
     #[cfg(feature = "docs")]
     use crate::descriptions::Description;
 
+    /// A tangent over this is the one of a pole, where the cosine of a float is not exactly 0.
+    const POLE: f64 = 1e10;
+
     #[cfg(not(feature = "docs"))]
     macro_rules! impl_trig {
         ($t:ty, $method_name:ident) => {
@@ -711,7 +714,7 @@ mod trig_ops {
                             .map(f64::$method_name)
                             .map(|n| n.approx()){
                             Some(n) => {
-                                if n.is_nan() || n.is_infinite() {
+                                if n.is_nan() || n.abs() > POLE {
                                     Err(Error::from(ErrorKind::NAN))
                                 } else {
                                     N::from_f64(n).ok_or(Error::from(ErrorKind::Overflow))
@@ -776,7 +779,7 @@ mod trig_ops {
                             .map(f64::$method_name)
                             .map(|n| n.approx()){
                             Some(n) => {
-                                if n.is_nan() || n.is_infinite() {
+                                if n.is_nan() || n.abs() > POLE {
                                     Err(Error::from(ErrorKind::NAN))
                                 } else {
                                     N::from_f64(n).ok_or(Error::from(ErrorKind::Overflow))
-- 
2.43.0


From 0cd3cb37ddeb8aa2f369ad1aba4cdedb60754cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:40 +0000
Subject: [PATCH 37/47] fix: a logarithm of base 0 is an error, not 0

---
 prexel/src/complex/mod.rs | 2 ++
 prexel/src/ops/mod.rs     | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 8b16f53..471b89a 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -62,6 +62,8 @@ pub mod ops {
                    Ok(args[0].log(base))
                 },
                 2 => match args[1].im {
+                    // The logarithm of the base 0 is infinite, its inverse is not
+                    _ if args[1].is_zero() => Err(Error::from(ErrorKind::NAN)),
                     n if n.is_zero() => {
                         Ok(args[0].log(args[1].re))
                     },
diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 6220269..1f47f46 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -607,7 +607,8 @@ mod math_ops {
                     match (x, y) {
                         (Some(value), Some(base)) => {
                             let result = value.log(base);
-                            if result.is_nan() || result.is_infinite() {
+                            // The logarithm of the base 0 is infinite, its inverse is not
+                            if result.is_nan() || result.is_infinite() || base == 0.0 {
                                 Err(Error::from(ErrorKind::NAN))
                             } else {
                                 N::from_f64(result).ok_or_else(|| Error::from(ErrorKind::Overflow))
-- 
2.43.0


From 64e7bfcd5883aed21ab2322697c566fb2d95e773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:43 +0000
Subject: [PATCH 38/47] fix: decimal arc tangent of 0 over 0 is an error, as
 for the floats

---
 prexel/src/decimal/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index 09e5458..ac0631e 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -1181,6 +1181,7 @@ mod trig_ops {
         fn call(&self, args: &[Decimal]) -> Result<Decimal> {
             match args.len() {
                 1 => Ok(args[0].atan().to_degrees()),
+                2 if args[0].is_zero() && args[1].is_zero() => Err(Error::from(ErrorKind::NAN)),
                 2 => Ok(args[0].atan2(args[1]).to_degrees()),
                 _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
             }
-- 
2.43.0


From 3b8f21e0eb1e3e07aa9b4afaef25c8fdf742bfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:05 +0000
Subject: [PATCH 39/47] fix: random never leaves its range, whatever the
 rounding or the span of its bounds

---
 prexel/src/complex/mod.rs | 10 ++++++++--
 prexel/src/ops/mod.rs     | 24 +++++++++++++++++++-----
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/prexel/src/complex/mod.rs b/prexel/src/complex/mod.rs
index 471b89a..286e1d1 100644
--- a/prexel/src/complex/mod.rs
+++ b/prexel/src/complex/mod.rs
@@ -104,6 +104,12 @@ pub mod ops {
                     .ok_or_else(|| Error::from(ErrorKind::Overflow))
             }
 
+            // The difference of the bounds may be infinite
+            fn random_between<N: Float + FromPrimitive>(min: N, max: N) -> Result<N>{
+                let factor = random_t::<N>()?;
+                Ok((min * (N::one() - factor) + max * factor).max(min).min(max))
+            }
+
             match args.len(){
                 0 => {
                     let re = random_t::<T>()?;
@@ -130,8 +136,8 @@ pub mod ops {
                         ));
                     }
 
-                    let re = min + ((max - min) * random_t::<T>()?);
-                    let im = min + ((max - min) * random_t::<T>()?);
+                    let re = random_between(min, max)?;
+                    let im = random_between(min, max)?;
                     Ok(Complex::new(re, im))
                 }
                 _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
diff --git a/prexel/src/ops/mod.rs b/prexel/src/ops/mod.rs
index 1f47f46..1a48062 100644
--- a/prexel/src/ops/mod.rs
+++ b/prexel/src/ops/mod.rs
@@ -628,13 +628,24 @@ mod math_ops {
     }
 
     pub struct RandFunction;
-    impl<N: ToPrimitive + FromPrimitive> Function<N> for RandFunction {
+    impl<N: ToPrimitive + FromPrimitive + PartialOrd + Clone> Function<N> for RandFunction {
         #[inline]
         fn name(&self) -> &str {
             "random"
         }
 
         fn call(&self, args: &[N]) -> Result<N> {
+            // The bounds may not be exact as floats: rounding them must not leave the range
+            fn clamp<N: FromPrimitive + PartialOrd + Clone>(value: f64, min: &N, max: &N) -> N {
+                match N::from_f64(value) {
+                    Some(n) if n < *min => min.clone(),
+                    Some(n) if n > *max => max.clone(),
+                    Some(n) => n,
+                    None if value < 0.0 => min.clone(),
+                    None => max.clone(),
+                }
+            }
+
             match args.len() {
                 0 => N::from_f64(random::<f64>()).ok_or_else(|| Error::from(ErrorKind::Overflow)),
                 1 => {
@@ -643,21 +654,24 @@ mod math_ops {
                         return Err(Error::from(ErrorKind::NegativeValue));
                     }
 
-                    N::from_f64(random::<f64>() * max).ok_or_else(|| Error::from(ErrorKind::Overflow))
+                    let zero = N::from_f64(0.0).ok_or_else(|| Error::from(ErrorKind::Overflow))?;
+                    Ok(clamp(random::<f64>() * max, &zero, &args[0]))
                 }
                 2 => {
                     let min = try_to_float(&args[0])?;
                     let max = try_to_float(&args[1])?;
 
-                    if min > max {
+                    if args[0] > args[1] {
                         return Err(Error::new(
                             ErrorKind::InvalidInput,
                             format!("Invalid range for `Random`: min > max, {} > {}", min, max))
                         )
                     }
 
-                    let value = min + ((max - min) * random::<f64>());
-                    N::from_f64(value).ok_or_else(|| Error::from(ErrorKind::Overflow))
+                    // The difference of the bounds may be infinite
+                    let factor = random::<f64>();
+                    let value = min * (1.0 - factor) + max * factor;
+                    Ok(clamp(value, &args[0], &args[1]))
                 }
                 _ => Err(Error::from(ErrorKind::InvalidArgumentCount)),
             }
-- 
2.43.0


From 881a351836e9a2befcdcd4cdf825873bc215df35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:23 +0000
Subject: [PATCH 40/47] fix: answer with an error when the evaluation of a
 request panics

---
 prexel-server/src/services/evaluator.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prexel-server/src/services/evaluator.rs b/prexel-server/src/services/evaluator.rs
index bff9fd7..a7d0445 100644
--- a/prexel-server/src/services/evaluator.rs
+++ b/prexel-server/src/services/evaluator.rs
@@ -4,6 +4,7 @@ use prexel::complex;
 use prexel::context::{Config, Grouping};
 use prexel::tokenizer::Tokenizer;
 use prexel::{context::Context, context::DefaultContext, decimal::Decimal, evaluator::Evaluator};
+use std::panic;
 use std::str::FromStr;
 use std::string::ToString;
 use prexel::binary::{Binary, binary_number_splitter};
@@ -18,13 +19,15 @@ static CONFIG: Lazy<Config> = Lazy::new(|| {
 pub fn eval_expression(expression: EvalExpression) -> EvalResult {
     let r#type = expression.r#type.unwrap_or(NumberType::Decimal);
 
-    match r#type {
+    // A panic would take down the worker and leave the request without an answer
+    panic::catch_unwind(|| match r#type {
         NumberType::Decimal => eval_decimal_expression(expression),
         NumberType::Float => eval_float_expression(expression),
         NumberType::Integer => eval_integer_expression(expression),
         NumberType::Complex => eval_complex_expression(expression),
         NumberType::Binary => eval_binary_expression(expression),
-    }
+    })
+    .unwrap_or_else(|_| EvalResult::Err("The expression cannot be evaluated".to_string()))
 }
 
 fn eval_decimal_expression(expression: EvalExpression) -> EvalResult {
-- 
2.43.0


From 9054ecfd2734b71e341a1a3c51a97dc8c2b80f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:24 +0000
Subject: [PATCH 41/47] fix: refuse a request body with anything after the json
 value

---
 prexel-server/src/endpoints/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prexel-server/src/endpoints/mod.rs b/prexel-server/src/endpoints/mod.rs
index aac1cb1..163ec84 100644
--- a/prexel-server/src/endpoints/mod.rs
+++ b/prexel-server/src/endpoints/mod.rs
@@ -27,7 +27,7 @@ pub async fn eval(req: HttpRequest, body: web::Bytes) -> ApiResponse {
     };
 
     let deserializer = &mut serde_json::Deserializer::from_str(&body);
-    let expr = match serde_path_to_error::deserialize(deserializer) {
+    let expr = match serde_path_to_error::deserialize(&mut *deserializer) {
         Ok(expr) => expr,
         Err(err) => {
             let path = err.path().to_string();
@@ -41,6 +41,12 @@ pub async fn eval(req: HttpRequest, body: web::Bytes) -> ApiResponse {
         }
     };
 
+    // Nothing can follow the json value
+    if deserializer.end().is_err() {
+        return Ok(HttpResponse::BadRequest()
+            .json(EvaluatedExpression::with_error("Invalid json".to_string())));
+    }
+
     let expression = expr;
     let eval_result = services::eval_expression(expression);
     let query = Query::<EvalParams>::from_query(req.query_string()).ok();
-- 
2.43.0


From 8ea67f7d05321e2673bdcdbce4ecc467af91faa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:26 +0000
Subject: [PATCH 42/47] fix: list the float vocabulary for type=float

---
 prexel-server/src/endpoints/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prexel-server/src/endpoints/mod.rs b/prexel-server/src/endpoints/mod.rs
index 163ec84..bd32416 100644
--- a/prexel-server/src/endpoints/mod.rs
+++ b/prexel-server/src/endpoints/mod.rs
@@ -72,7 +72,7 @@ pub async fn get_operators(req: HttpRequest) -> Result<impl Responder> {
             Ok(HttpResponse::Ok().json(operators))
         }
         NumberType::Float => {
-            let context = DefaultContext::new_decimal();
+            let context = DefaultContext::<f64>::new_checked();
             let operators = services::get_operators(&context);
             Ok(HttpResponse::Ok().json(operators))
         }
@@ -106,7 +106,7 @@ pub async fn get_constants(req: HttpRequest) -> Result<impl Responder> {
             Ok(HttpResponse::Ok().json(constants))
         }
         NumberType::Float => {
-            let context = DefaultContext::new_decimal();
+            let context = DefaultContext::<f64>::new_checked();
             let constants = services::get_constants(&context);
             Ok(HttpResponse::Ok().json(constants))
         }
@@ -140,7 +140,7 @@ pub async fn get_functions(req: HttpRequest) -> Result<impl Responder> {
             Ok(HttpResponse::Ok().json(functions))
         }
         NumberType::Float => {
-            let context = DefaultContext::new_decimal();
+            let context = DefaultContext::<f64>::new_checked();
             let functions = services::get_functions(&context);
             Ok(HttpResponse::Ok().json(functions))
         }
-- 
2.43.0


From 3906a44c8fd88d70bc84aa44bf66e269aaa6c5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:41 +0000
Subject: [PATCH 43/47] fix: share the rate limit counters between the workers

---
 prexel-server/src/main.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/prexel-server/src/main.rs b/prexel-server/src/main.rs
index 9f64cab..0736d90 100644
--- a/prexel-server/src/main.rs
+++ b/prexel-server/src/main.rs
@@ -30,11 +30,14 @@ async fn main() -> std::io::Result<()> {
         .flatten()
         .unwrap_or(8000);
 
+    // All the workers share the same counters
+    let store = MemoryStore::new();
+
     HttpServer::new(move || {
         App::new()
             .wrap(Logger::default())
             .wrap(NormalizePath::new(TrailingSlash::Trim))
-            .wrap(get_rate_limit_middleware())
+            .wrap(get_rate_limit_middleware(store.clone()))
             .wrap_fn(|mut req, srv| {
                 let has_id = get_rate_limit_identifier(&req).is_some();
                 let mut cookie: Option<Cookie> = None;
@@ -87,12 +90,10 @@ async fn main() -> std::io::Result<()> {
     .await
 }
 
-fn get_rate_limit_middleware() -> RateLimiter<MemoryStoreActor> {
+fn get_rate_limit_middleware(store: MemoryStore) -> RateLimiter<MemoryStoreActor> {
     const MAX_REQUESTS: usize = 100;
     const TIME_BETWEEN_REQUESTS: Duration = Duration::from_secs(60);
 
-    let store = MemoryStore::new();
-
     RateLimiter::new(MemoryStoreActor::from(store).start())
         .with_interval(TIME_BETWEEN_REQUESTS)
         .with_max_requests(MAX_REQUESTS)
-- 
2.43.0


From cbaa1527f5174a69db13de595405185c9de711b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:43 +0000
Subject: [PATCH 44/47] fix: identify a client by its address, not by its
 connection

---
 prexel-server/src/middlewares/rate_limiter.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/prexel-server/src/middlewares/rate_limiter.rs b/prexel-server/src/middlewares/rate_limiter.rs
index c339a68..be38c30 100644
--- a/prexel-server/src/middlewares/rate_limiter.rs
+++ b/prexel-server/src/middlewares/rate_limiter.rs
@@ -6,13 +6,10 @@ pub const RATE_LIMIT_ID : &str = "X-Ratelimit-Id";
 
 pub fn get_rate_limit_identifier(req: &ServiceRequest) -> Option<String> {
     fn internal_get_identifier(req: &ServiceRequest) -> Option<String> {
-        if let Some(remote_addr) = req.connection_info().remote_addr() {
-            return Some(remote_addr.to_string());
-        }
-
+        // The port is not part of the identity, it changes with each connection
         // FIXME: Peer address can be trick with a proxy
         if let Some(peer_addr) = req.peer_addr() {
-            return Some(peer_addr.to_string());
+            return Some(peer_addr.ip().to_string());
         }
 
         if let Some(cookie) = req.cookie(RATE_LIMIT_ID) {
-- 
2.43.0


From d7a89b9b580cab2d67e1462df426d7aa6d6cc284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:53 +0000
Subject: [PATCH 45/47] fix: count a request in one step, so that concurrent
 requests share one quota

---
 prexel-server/src/main.rs                     | 40 ++++++----
 prexel-server/src/middlewares/rate_limiter.rs | 74 ++++++++++++++++++-
 2 files changed, 100 insertions(+), 14 deletions(-)

diff --git a/prexel-server/src/main.rs b/prexel-server/src/main.rs
index 0736d90..0a707e9 100644
--- a/prexel-server/src/main.rs
+++ b/prexel-server/src/main.rs
@@ -4,17 +4,16 @@ mod models;
 mod services;
 
 use crate::middlewares::rate_limiter::{
-    generate_rate_limit_id, get_rate_limit_identifier, RATE_LIMIT_ID,
+    generate_rate_limit_id, get_rate_limit_identifier, RateLimiter, RATE_LIMIT_ID,
 };
 use actix_ratelimit::errors::ARError;
-use actix_ratelimit::{MemoryStore, MemoryStoreActor, RateLimiter};
 use actix_web::cookie::{Cookie, CookieBuilder};
 use actix_web::dev::Service;
 use actix_web::http::header::{COOKIE, SET_COOKIE};
 use actix_web::http::{HeaderMap, HeaderValue};
 use actix_web::middleware::normalize::TrailingSlash;
 use actix_web::middleware::{Logger, NormalizePath};
-use actix_web::{App, HttpResponse, HttpServer};
+use actix_web::{App, Error, HttpResponse, HttpServer};
 use std::env;
 use std::time::Duration;
 
@@ -31,13 +30,34 @@ async fn main() -> std::io::Result<()> {
         .unwrap_or(8000);
 
     // All the workers share the same counters
-    let store = MemoryStore::new();
+    let rate_limiter = get_rate_limiter();
 
     HttpServer::new(move || {
+        let rate_limiter = rate_limiter.clone();
+
         App::new()
             .wrap(Logger::default())
             .wrap(NormalizePath::new(TrailingSlash::Trim))
-            .wrap(get_rate_limit_middleware(store.clone()))
+            .wrap_fn(move |req, srv| {
+                let admitted = match get_rate_limit_identifier(&req) {
+                    Some(id) => match rate_limiter.admit(id) {
+                        Ok(quota) => Ok((quota, srv.call(req))),
+                        Err(quota) => {
+                            let mut response = HttpResponse::TooManyRequests().finish();
+                            quota.write_headers(response.headers_mut());
+                            Err(response.into())
+                        }
+                    },
+                    None => Err(Error::from(ARError::IdentificationError)),
+                };
+
+                async move {
+                    let (quota, fut) = admitted?;
+                    let mut res = fut.await?;
+                    quota.write_headers(res.headers_mut());
+                    Ok(res)
+                }
+            })
             .wrap_fn(|mut req, srv| {
                 let has_id = get_rate_limit_identifier(&req).is_some();
                 let mut cookie: Option<Cookie> = None;
@@ -90,15 +110,9 @@ async fn main() -> std::io::Result<()> {
     .await
 }
 
-fn get_rate_limit_middleware(store: MemoryStore) -> RateLimiter<MemoryStoreActor> {
+fn get_rate_limiter() -> RateLimiter {
     const MAX_REQUESTS: usize = 100;
     const TIME_BETWEEN_REQUESTS: Duration = Duration::from_secs(60);
 
-    RateLimiter::new(MemoryStoreActor::from(store).start())
-        .with_interval(TIME_BETWEEN_REQUESTS)
-        .with_max_requests(MAX_REQUESTS)
-        .with_identifier(|req| match get_rate_limit_identifier(req) {
-            Some(id) => Ok(id),
-            None => Err(ARError::IdentificationError),
-        })
+    RateLimiter::new(MAX_REQUESTS, TIME_BETWEEN_REQUESTS)
 }
diff --git a/prexel-server/src/middlewares/rate_limiter.rs b/prexel-server/src/middlewares/rate_limiter.rs
index be38c30..4b22f39 100644
--- a/prexel-server/src/middlewares/rate_limiter.rs
+++ b/prexel-server/src/middlewares/rate_limiter.rs
@@ -1,5 +1,9 @@
 use actix_web::dev::ServiceRequest;
+use actix_web::http::header::{HeaderMap, HeaderName, HeaderValue};
 use actix_web::HttpMessage;
+use std::collections::HashMap;
+use std::sync::{Arc, Mutex};
+use std::time::{Duration, Instant};
 use uuid::Uuid;
 
 pub const RATE_LIMIT_ID : &str = "X-Ratelimit-Id";
@@ -29,4 +33,72 @@ pub fn get_rate_limit_identifier(req: &ServiceRequest) -> Option<String> {
 pub fn generate_rate_limit_id() -> String {
     let uuid = Uuid::new_v4();
     base64::encode(uuid.as_bytes()).trim_end_matches('=').to_string()
-}
\ No newline at end of file
+}
+
+/// Counts the requests of each client.
+///
+/// A request is counted in a single step, no other request of the client can be in between.
+#[derive(Clone)]
+pub struct RateLimiter {
+    max_requests: usize,
+    interval: Duration,
+    clients: Arc<Mutex<HashMap<String, (usize, Instant)>>>,
+}
+
+/// What is left of a client's requests.
+pub struct Quota {
+    limit: usize,
+    remaining: usize,
+    reset: Duration,
+}
+
+impl RateLimiter {
+    pub fn new(max_requests: usize, interval: Duration) -> Self {
+        RateLimiter {
+            max_requests,
+            interval,
+            clients: Default::default(),
+        }
+    }
+
+    /// Counts a request, `Err` if the client have no requests left.
+    pub fn admit(&self, id: String) -> Result<Quota, Quota> {
+        let now = Instant::now();
+        let mut clients = self.clients.lock().unwrap();
+
+        if !matches!(clients.get(&id), Some((_, end)) if *end > now) {
+            clients.retain(|_, (_, end)| *end > now);
+            clients.insert(id.clone(), (self.max_requests, now + self.interval));
+        }
+
+        let (remaining, end) = clients.get_mut(&id).unwrap();
+        let admitted = *remaining > 0;
+        *remaining = remaining.saturating_sub(1);
+
+        let quota = Quota {
+            limit: self.max_requests,
+            remaining: *remaining,
+            reset: *end - now,
+        };
+
+        if admitted {
+            Ok(quota)
+        } else {
+            Err(quota)
+        }
+    }
+}
+
+impl Quota {
+    pub fn write_headers(&self, headers: &mut HeaderMap) {
+        let values = [
+            ("x-ratelimit-limit", self.limit as u64),
+            ("x-ratelimit-remaining", self.remaining as u64),
+            ("x-ratelimit-reset", self.reset.as_secs()),
+        ];
+
+        for (name, value) in values {
+            headers.insert(HeaderName::from_static(name), HeaderValue::from(value));
+        }
+    }
+}
-- 
2.43.0


From 5ab73fe6eaf5cd2c600edd0032c8e27c818c902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:00 +0000
Subject: [PATCH 46/47] fix: the binary numbers build without the docs feature

---
 prexel/src/binary/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/prexel/src/binary/mod.rs b/prexel/src/binary/mod.rs
index 92b164e..240fd7a 100644
--- a/prexel/src/binary/mod.rs
+++ b/prexel/src/binary/mod.rs
@@ -123,6 +123,7 @@ pub mod math {
             Ok(Binary(!value.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise NOT of the given value.")
         }
@@ -150,6 +151,7 @@ pub mod math {
             Ok(Binary(left.0 & right.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise AND of the given values.")
         }
@@ -177,6 +179,7 @@ pub mod math {
             Ok(Binary(left.0 | right.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise OR of the given values.")
         }
@@ -204,6 +207,7 @@ pub mod math {
             Ok(Binary(left.0 ^ right.0))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the bitwise XOR of the given values.")
         }
@@ -232,6 +236,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the given values are equal, 0 otherwise.")
         }
@@ -260,6 +265,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the given values are not equal, 0 otherwise.")
         }
@@ -288,6 +294,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is greater than the right value, 0 otherwise.")
         }
@@ -316,6 +323,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is less than the right value, 0 otherwise.")
         }
@@ -344,6 +352,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is greater than or equal to the right value, 0 otherwise.")
         }
@@ -372,6 +381,7 @@ pub mod math {
             Ok(Binary(result))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns 1 if the left value is less than or equal to the right value, 0 otherwise.")
         }
@@ -408,6 +418,7 @@ pub mod math {
             Ok(Binary(left.0 >> shift_amount(right)?))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the left value bits shifted right by the right value.")
         }
@@ -435,6 +446,7 @@ pub mod math {
             Ok(Binary(left.0 << shift_amount(right)?))
         }
 
+        #[cfg(feature = "docs")]
         fn description(&self) -> Option<&str> {
             Some("Returns the left value bits shifted left by the right value.")
         }
-- 
2.43.0


From 8e4d4e2c000c1b4c1820cf06e7dbcec1b588a873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:50 +0000
Subject: [PATCH 47/47] fix: a decimal divided by zero is a division by zero,
 not an overflow

---
 prexel/src/decimal/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prexel/src/decimal/mod.rs b/prexel/src/decimal/mod.rs
index ac0631e..2121d0b 100644
--- a/prexel/src/decimal/mod.rs
+++ b/prexel/src/decimal/mod.rs
@@ -478,6 +478,10 @@ mod math_ops {
 
         #[inline]
         fn call(&self, left: Decimal, right: Decimal) -> Result<Decimal> {
+            if right.is_zero() {
+                return Err(Error::from(ErrorKind::DivisionByZero));
+            }
+
             left.checked_div(right)
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
@@ -507,6 +511,10 @@ mod math_ops {
 
         #[inline]
         fn call(&self, left: Decimal, right: Decimal) -> Result<Decimal> {
+            if right.is_zero() {
+                return Err(Error::from(ErrorKind::DivisionByZero));
+            }
+
             left.checked_rem(right)
                 .ok_or_else(|| Error::from(ErrorKind::Overflow))
         }
-- 
2.43.0

