From 9788c9c2cb45fac0ff1e09b7cf245208fd1d767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 01/22] fix: share equal open fix points only when their free
 variables agree

The backend reused the type generated for one fix point for any other fix
point with an equal body. Bodies hold de Bruijn indices, so two equal bodies
under different outer fix points can refer to different things; the generated
parser then recursed into the wrong rule.
---
 src/chomp/typed/mod.rs | 19 ++++++++++++++++++-
 src/lower/mod.rs       | 15 ++++++++++++---
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/chomp/typed/mod.rs b/src/chomp/typed/mod.rs
index f1f6967..9595a3a 100644
--- a/src/chomp/typed/mod.rs
+++ b/src/chomp/typed/mod.rs
@@ -1,4 +1,4 @@
-use std::hash;
+use std::{collections::BTreeSet, hash};
 
 use proc_macro2::Span;
 
@@ -220,6 +220,23 @@ pub struct TypedExpression {
     pub span: Span,
 }
 
+impl TypedExpression {
+    /// Returns the index of every variable bound outside the `depth` innermost fix points, relative
+    /// to the context outside those fix points.
+    pub fn free_variables(&self, depth: usize) -> BTreeSet<usize> {
+        match &self.inner {
+            RawTypedExpression::Epsilon(_) | RawTypedExpression::Literal(_) => BTreeSet::new(),
+            RawTypedExpression::Cat(Cat { terms, .. })
+            | RawTypedExpression::Alt(Alt { terms, .. }) => terms
+                .iter()
+                .flat_map(|term| term.free_variables(depth))
+                .collect(),
+            RawTypedExpression::Fix(f) => f.inner.free_variables(depth + 1),
+            RawTypedExpression::Variable(v) => v.index().checked_sub(depth).into_iter().collect(),
+        }
+    }
+}
+
 impl PartialEq for TypedExpression {
     fn eq(&self, other: &Self) -> bool {
         self.inner == other.inner && self.name == other.name
diff --git a/src/lower/mod.rs b/src/lower/mod.rs
index e74f86a..d0a96be 100644
--- a/src/lower/mod.rs
+++ b/src/lower/mod.rs
@@ -33,7 +33,7 @@ pub struct RustBackend {
     lit_map: HashMap<String, usize>,
     cat_map: HashMap<Vec<usize>, usize>,
     alt_map: HashMap<Vec<usize>, usize>,
-    fix_map: HashMap<TypedExpression, usize>,
+    fix_map: HashMap<(TypedExpression, Vec<usize>), usize>, // Key includes IDs of outer fix points
     var_map: HashMap<usize, usize>, // Key is fix point ID
     name_map: HashMap<Ident, usize>,
     can_char: BTreeSet<usize>,
@@ -379,13 +379,22 @@ impl Backend for RustBackend {
 
     fn gen_fix(&mut self, name: Option<Name>, span: Span, fix: Fix) -> Self::Id {
         let inner = fix.unwrap();
+        // Equal open terms are only interchangeable when their free variables are the same fix points.
+        let outer = inner
+            .free_variables(1)
+            .into_iter()
+            .map(|index| self.context[self.context.len() - index - 1])
+            .collect();
+        let key = (inner, outer);
 
-        if let Some(&id) = self.fix_map.get(&inner) {
+        if let Some(&id) = self.fix_map.get(&key) {
             return id;
         }
 
+        let inner = key.0.clone();
+
         let (id, name) = self.new_type_name("Fix", name, span);
-        self.fix_map.insert(inner.clone(), id);
+        self.fix_map.insert(key, id);
 
         self.data.push(Ty {
             name: TokenTree::from(name.clone()).into(),
-- 
2.43.0


From 73382246fe26bebeb416389e2123758f42a619b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 02/22] fix: report failure to write the last of the generated
 code

Standard output is line buffered and errors while flushing at exit are
ignored, so the commands exited with status zero when the last part of the
code could not be written.
---
 autonibble/src/main.rs | 5 ++++-
 src/main.rs            | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/autonibble/src/main.rs b/autonibble/src/main.rs
index 56c757d..4388336 100644
--- a/autonibble/src/main.rs
+++ b/autonibble/src/main.rs
@@ -51,7 +51,10 @@ fn main() {
             backend.emit_code(None, Span::call_site(), id)
         })
         .and_then(|code| {
-            write!(io::stdout(), "{:#}", code).map_err(|e| Box::new(e) as Box<dyn Error>)
+            let mut stdout = io::stdout();
+            write!(stdout, "{:#}", code)
+                .and_then(|()| stdout.flush())
+                .map_err(|e| Box::new(e) as Box<dyn Error>)
         });
 
     if let Err(e) = res {
diff --git a/src/main.rs b/src/main.rs
index 0954074..f74d731 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -50,7 +50,10 @@ fn main() {
             backend.emit_code(None, Span::call_site(), id)
         })
         .and_then(|code| {
-            write!(io::stdout(), "{:#}", code).map_err(|e| Box::new(e) as Box<dyn Error>)
+            let mut stdout = io::stdout();
+            write!(stdout, "{:#}", code)
+                .and_then(|()| stdout.flush())
+                .map_err(|e| Box::new(e) as Box<dyn Error>)
         });
 
     if let Err(e) = res {
-- 
2.43.0


From 36016d455351fd7390835e79b25d0acdeb391454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 03/22] fix: do not panic on a mismatch after a non-ASCII
 character

consume_str counted matched characters but sliced the literal by bytes.
---
 chewed/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index cd98d64..54d797c 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -30,7 +30,7 @@ pub trait Parser {
             if let Some(got) = self.peek() {
                 if got == exp {
                     self.next();
-                    count += 1
+                    count += exp.len_utf8()
                 } else {
                     let mut out = String::from(&s[..count]);
                     out.push(got);
-- 
2.43.0


From 6526676100b59743a3b2d4e3235a0e57a8dcbe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 04/22] fix: reading at the end of the input does not move the
 position

---
 chewed/src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index 54d797c..7c16a46 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -159,10 +159,11 @@ impl<I: ?Sized + Iterator<Item = char>> Parser for IterWrapper<I> {
                 }
                 Some('\x0D')
             }
-            x => {
+            x @ Some(_) => {
                 self.pos.col += 1;
                 x
             }
+            None => None,
         }
     }
 
-- 
2.43.0


From 95537e4a5eb4b1e11eaef152e40017fbf0af4996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 05/22] fix: take_chars_from leaves the offending character
 unread

It consumed the character before looking at it, and so also reported the
position after it; consume_str already peeks first.
---
 chewed/src/parse.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index 7c16a46..8cfb83f 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -53,9 +53,12 @@ pub trait Parser {
 
     fn take_chars_from(&mut self, set: &'static [char], buffer: &mut [char]) -> Result<(), TakeError> {
         for pos in buffer {
-            match self.next() {
+            match self.peek() {
                 None => return Err(TakeError::EndOfStream(self.pos())),
-                Some(c) if set.contains(&c) => *pos = c,
+                Some(c) if set.contains(&c) => {
+                    self.next();
+                    *pos = c
+                }
                 Some(c) => return Err(TakeError::BadBranch(self.pos(), c, set))
             }
         }
-- 
2.43.0


From 745b0be2f1670a6c9c06ec8da6bacd7f90e5bcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:04 +0000
Subject: [PATCH 06/22] fix: reject fix points of functions with several
 parameters

A fix point binds one variable, but the body of a function with more
parameters was taken as it was, so its other variables silently referred to
enclosing fix points.
---
 src/chomp/typed/infer.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/chomp/typed/infer.rs b/src/chomp/typed/infer.rs
index bc2baea..baf8816 100644
--- a/src/chomp/typed/infer.rs
+++ b/src/chomp/typed/infer.rs
@@ -119,12 +119,13 @@ impl Folder for TypeInfer<'_> {
 
     fn fold_fix(&mut self, name: Option<Name>, span: Span, fix: Fix) -> Self::Out {
         let mut ty = Type::default();
-        let body = if let Expression::Lambda(l) = fix.inner.expr {
-            let mut body = *l.inner;
-            body.name = Name::merge_all(array::IntoIter::new([fix.inner.name, body.name, name.clone()]));
-            body
-        } else {
-            return Err(TypeError::ExpectedLambda { span, fix });
+        let body = match fix.inner.expr {
+            Expression::Lambda(l) if l.args.len() == 1 => {
+                let mut body = *l.inner;
+                body.name = Name::merge_all(array::IntoIter::new([fix.inner.name, body.name, name.clone()]));
+                body
+            }
+            _ => return Err(TypeError::ExpectedLambda { span, fix }),
         };
 
         loop {
-- 
2.43.0


From 5d3c719bed93542add155137ebe696579bb4431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:39 +0000
Subject: [PATCH 07/22] fix: do not panic on names made of underscores and
 digits

Converting a name like _ or _1 to another case drops its underscores and
left an empty or numeric identifier.
---
 src/chomp/name.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/chomp/name.rs b/src/chomp/name.rs
index 450b6e9..e946513 100644
--- a/src/chomp/name.rs
+++ b/src/chomp/name.rs
@@ -6,7 +6,16 @@ use std::{
 
 use heck::{CamelCase, SnakeCase};
 use proc_macro2::{Ident, Span};
-use syn::{ext::IdentExt, spanned::Spanned};
+use syn::{ext::IdentExt, parse::Parser, spanned::Spanned};
+
+/// Changing case drops underscores, which can leave something that is not an identifier.
+fn restore_ident(name: String) -> String {
+    if Ident::parse_any.parse_str(&name).is_ok() {
+        name
+    } else {
+        format!("_{}", name)
+    }
+}
 
 #[derive(Clone, Debug)]
 pub enum Content {
@@ -38,9 +47,9 @@ impl CamelCase for Content {
             Self::Spanned(ident) => {
                 let span = ident.span();
                 let name = ident.unraw().to_string();
-                Ident::new(&name.to_camel_case(), span).into()
+                Ident::new(&restore_ident(name.to_camel_case()), span).into()
             }
-            Self::Spanless(name) => name.to_camel_case().into(),
+            Self::Spanless(name) => restore_ident(name.to_camel_case()).into(),
         }
     }
 }
@@ -51,9 +60,9 @@ impl SnakeCase for Content {
             Self::Spanned(ident) => {
                 let span = ident.span();
                 let name = ident.unraw().to_string();
-                Ident::new(&name.to_snake_case(), span).into()
+                Ident::new(&restore_ident(name.to_snake_case()), span).into()
             }
-            Self::Spanless(name) => name.to_snake_case().into(),
+            Self::Spanless(name) => restore_ident(name.to_snake_case()).into(),
         }
     }
 }
-- 
2.43.0


From cf3b5055042c30a887d0ce0c86c5a38affd69694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 08/22] fix: autonibble reports escapes that are no character

An escape like \u{110000} or \u{d800} made it panic.
---
 autonibble/src/lib.rs | 49 ++++++++++++++++++++++++++++---------------
 src/nibble/convert.rs |  7 ++++++-
 2 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/autonibble/src/lib.rs b/autonibble/src/lib.rs
index 2fed0f0..8de06f4 100644
--- a/autonibble/src/lib.rs
+++ b/autonibble/src/lib.rs
@@ -1,4 +1,7 @@
-use std::{convert::TryInto, mem};
+use std::{
+    convert::{TryFrom, TryInto},
+    mem,
+};
 
 use chomp::{
     chomp::{
@@ -277,7 +280,11 @@ impl Convert for Term1 {
             }),
             Term1::Literal1(literal) => Ok(NamedExpression {
                 name: None,
-                expr: literal.contents1.into_iter().collect::<Literal>().into(),
+                expr: literal
+                    .contents1
+                    .into_iter()
+                    .collect::<Result<Literal, _>>()?
+                    .into(),
                 span: Span::call_site(),
             }),
             Term1::Parens1(parens) => parens.expr1.convert(context),
@@ -392,7 +399,7 @@ impl Iterator for Opt13 {
 }
 
 impl IntoIterator for Contents1 {
-    type Item = char;
+    type Item = Result<char, ConvertError>;
 
     type IntoIter = Opt11;
 
@@ -402,7 +409,7 @@ impl IntoIterator for Contents1 {
 }
 
 impl Iterator for Opt11 {
-    type Item = char;
+    type Item = Result<char, ConvertError>;
 
     fn next(&mut self) -> Option<Self::Item> {
         let orig = mem::replace(self, Opt11::None1(Epsilon));
@@ -410,27 +417,31 @@ impl Iterator for Opt11 {
             Opt11::None1(_) => None,
             Opt11::Plus1(contents) => {
                 *self = contents.opt1;
-                Some(contents.literal_char1.into())
+                Some(contents.literal_char1.try_into())
             }
         }
     }
 }
 
-impl From<LiteralChar1> for char {
-    fn from(c: LiteralChar1) -> Self {
+impl TryFrom<LiteralChar1> for char {
+    type Error = ConvertError;
+
+    fn try_from(c: LiteralChar1) -> Result<Self, Self::Error> {
         match c {
-            LiteralChar1::Literal1(c) => c.into(),
-            LiteralChar1::Escape1(e) => e.into(),
+            LiteralChar1::Literal1(c) => Ok(c.into()),
+            LiteralChar1::Escape1(e) => e.try_into(),
         }
     }
 }
 
-impl From<Escape1> for char {
-    fn from(e: Escape1) -> Self {
+impl TryFrom<Escape1> for char {
+    type Error = ConvertError;
+
+    fn try_from(e: Escape1) -> Result<Self, Self::Error> {
         match e.1 {
-            Alt171::Ascii1(a) => a.escape(),
-            Alt171::Oct1(o) => o.into(),
-            Alt171::Unicode1(u) => u.into(),
+            Alt171::Ascii1(a) => Ok(a.escape()),
+            Alt171::Oct1(o) => Ok(o.into()),
+            Alt171::Unicode1(u) => u.try_into(),
         }
     }
 }
@@ -458,10 +469,14 @@ impl From<Oct1> for char {
     }
 }
 
-impl From<Unicode1> for char {
-    fn from(u: Unicode1) -> Self {
+impl TryFrom<Unicode1> for char {
+    type Error = ConvertError;
+
+    fn try_from(u: Unicode1) -> Result<Self, Self::Error> {
         let s = u.up_to1.to_string();
-        u32::from_str_radix(&s, 16).unwrap().try_into().unwrap()
+        let code = u32::from_str_radix(&s, 16).unwrap();
+        code.try_into()
+            .map_err(|_| ConvertError::InvalidChar(Span::call_site(), code))
     }
 }
 
diff --git a/src/nibble/convert.rs b/src/nibble/convert.rs
index ca6c95a..066dd32 100644
--- a/src/nibble/convert.rs
+++ b/src/nibble/convert.rs
@@ -62,6 +62,7 @@ pub enum ConvertError {
     EmptyCat(Span),
     EmptyAlt(Span),
     EmptyCall(Span),
+    InvalidChar(Span, u32),
 }
 
 impl From<ConvertError> for syn::Error {
@@ -71,7 +72,8 @@ impl From<ConvertError> for syn::Error {
             ConvertError::UndeclaredName(name) => name.span(),
             ConvertError::EmptyCat(span)
             | ConvertError::EmptyAlt(span)
-            | ConvertError::EmptyCall(span) => span,
+            | ConvertError::EmptyCall(span)
+            | ConvertError::InvalidChar(span, _) => span,
         };
 
         Self::new(span, msg)
@@ -93,6 +95,9 @@ impl fmt::Display for ConvertError {
             Self::EmptyCall(_) => {
                 write!(f, "call has no function")
             }
+            Self::InvalidChar(_, code) => {
+                write!(f, "invalid character code: {:#x}", code)
+            }
         }
     }
 }
-- 
2.43.0


From b2079445748824dcc7d68c3a81388f6a4b114066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 09/22] fix: a list iterator reports the error of a failed item

---
 chewed/src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index 8cfb83f..8e17ac9 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -104,7 +104,10 @@ impl<P: Parser + ?Sized, F: FnMut(&mut P) -> Result<R, TakeError>, R> Iterator f
         if c == self.stop {
             None
         } else {
-            let res = (self.parse)(self.iter).map(Some).transpose()?;
+            let res = match (self.parse)(self.iter) {
+                Ok(item) => Ok(item),
+                Err(e) => return Some(Err(e)),
+            };
 
             match self.iter.peek() {
                 None => Some(Err(TakeError::EndOfStream(self.iter.pos()))),
-- 
2.43.0


From 5d8bd30fcd047ad44c29797685c212f412c8f9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 10/22] fix: accept argument names that are Rust keywords

---
 src/nibble/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nibble/mod.rs b/src/nibble/mod.rs
index f5417db..97bfbfe 100644
--- a/src/nibble/mod.rs
+++ b/src/nibble/mod.rs
@@ -277,7 +277,7 @@ impl Parse for Lambda {
         let slash_tok_left = input.parse()?;
         let mut args = Vec::new();
         loop {
-            args.push(input.parse()?);
+            args.push(input.call(Ident::parse_any)?);
             let lookahead = input.lookahead1();
 
             if lookahead.peek(Token![/]) {
@@ -401,7 +401,7 @@ impl Parse for LetStatement {
             if lookahead.peek(Token![=]) {
                 break;
             } else if lookahead.peek(Ident::peek_any) {
-                args.push(input.parse()?);
+                args.push(input.call(Ident::parse_any)?);
             } else {
                 return Err(lookahead.error());
             }
-- 
2.43.0


From fbe218f268ad12503574d107662057c7fd2fb793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:59 +0000
Subject: [PATCH 11/22] fix: autonibble names the goal Ast, as chomp does

---
 autonibble/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/autonibble/src/lib.rs b/autonibble/src/lib.rs
index 8de06f4..6e68983 100644
--- a/autonibble/src/lib.rs
+++ b/autonibble/src/lib.rs
@@ -116,7 +116,13 @@ impl Convert for Ast {
 impl Convert for Stmt1 {
     fn convert(self, context: &mut Context) -> Result<NamedExpression, ConvertError> {
         match self {
-            Stmt1::Goal1(goal) => goal.expr1.convert(context),
+            Stmt1::Goal1(goal) => {
+                let inner = goal.expr1.convert(context)?;
+                Ok(NamedExpression {
+                    name: Name::merge(inner.name, Some(Name::new_variable("Ast".to_owned()))),
+                    ..inner
+                })
+            }
             Stmt1::Let1(stmt) => {
                 let mut names = stmt.names1.into_iter().peekable();
                 let name = Name::new_let(names.next().unwrap());
-- 
2.43.0


From 57e635f52ab2d5e49c908d52a328bb25de1f06e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 12/22] fix: the hand-written JSON reader decodes unicode
 escapes

---
 chomp-bench/src/json/mod.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 2279010..b5fafe3 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -119,22 +119,22 @@ impl Parse for Value {
             let mut out = 0;
             for c in &chars {
                 match c {
-                    '0' => out *= 16,
-                    '1' => out *= 16 + 1,
-                    '2' => out *= 16 + 2,
-                    '3' => out *= 16 + 3,
-                    '4' => out *= 16 + 4,
-                    '5' => out *= 16 + 5,
-                    '6' => out *= 16 + 6,
-                    '7' => out *= 16 + 7,
-                    '8' => out *= 16 + 8,
-                    '9' => out *= 16 + 9,
-                    'a' | 'A' => out *= 16 + 10,
-                    'b' | 'B' => out *= 16 + 11,
-                    'c' | 'C' => out *= 16 + 12,
-                    'd' | 'D' => out *= 16 + 13,
-                    'e' | 'E' => out *= 16 + 14,
-                    'f' | 'F' => out *= 16 + 15,
+                    '0' => out = out * 16,
+                    '1' => out = out * 16 + 1,
+                    '2' => out = out * 16 + 2,
+                    '3' => out = out * 16 + 3,
+                    '4' => out = out * 16 + 4,
+                    '5' => out = out * 16 + 5,
+                    '6' => out = out * 16 + 6,
+                    '7' => out = out * 16 + 7,
+                    '8' => out = out * 16 + 8,
+                    '9' => out = out * 16 + 9,
+                    'a' | 'A' => out = out * 16 + 10,
+                    'b' | 'B' => out = out * 16 + 11,
+                    'c' | 'C' => out = out * 16 + 12,
+                    'd' | 'D' => out = out * 16 + 13,
+                    'e' | 'E' => out = out * 16 + 14,
+                    'f' | 'F' => out = out * 16 + 15,
                     _ => unreachable!(),
                 };
             }
-- 
2.43.0


From c09730e650c06638802af1ee60e8c95c2a990342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:05 +0000
Subject: [PATCH 13/22] fix: the hand-written JSON reader allows space inside
 empty containers

---
 chomp-bench/src/json/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index b5fafe3..b983ec0 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -208,6 +208,7 @@ impl Parse for Value {
             '[' => {
                 const ARRAY_TAIL: &[char] = &[',', ']'];
                 input.consume_str("[")?;
+                skip_ws(input);
                 let a = input
                     .iter_strict(Self::take, ',', ']', ARRAY_TAIL, FIRST_WS)
                     .collect::<Result<_, _>>()
@@ -218,6 +219,7 @@ impl Parse for Value {
             '{' => {
                 const OBJECT_TAIL: &[char] = &[',', '}'];
                 input.consume_str("{")?;
+                skip_ws(input);
                 let o = input
                     .iter_strict(
                         |p| {
-- 
2.43.0


From 03d467b7c8623a676c32e8662c0fd82a13362693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 14/22] fix: the hand-written JSON reader rejects malformed
 numbers

---
 chomp-bench/src/json/mod.rs | 58 ++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index b983ec0..53d6351 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -97,6 +97,7 @@ impl fmt::Display for Value {
 impl Parse for Value {
     fn take<P: chewed::Parser + ?Sized>(input: &mut P) -> Result<Self, TakeError> {
         const WS: &[char] = &[' ', '\t', '\n', '\r'];
+        const DIGITS: &[char] = &['0', '1', '2', '3', '4', '5', '6', '7', '8', '9'];
         const FIRST: &[char] = &[
             't', 'f', 'n', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '-', '"', '[', '{',
         ];
@@ -185,6 +186,52 @@ impl Parse for Value {
             }
         }
 
+        fn parse_digits<P: chewed::Parser + ?Sized>(
+            input: &mut P,
+            s: &mut String,
+        ) -> Result<(), TakeError> {
+            let mut digit = ['\0'];
+            input.take_chars_from(DIGITS, &mut digit)?;
+            s.push(digit[0]);
+            input.skip_while(|c| {
+                let is_digit = c.is_ascii_digit();
+                if is_digit {
+                    s.push(c);
+                }
+                is_digit
+            });
+            Ok(())
+        }
+
+        fn parse_number<P: chewed::Parser + ?Sized>(input: &mut P) -> Result<f64, TakeError> {
+            let mut s = String::new();
+            if input.peek() == Some('-') {
+                input.consume_str("-")?;
+                s.push('-');
+            }
+            if input.peek() == Some('0') {
+                input.consume_str("0")?;
+                s.push('0');
+            } else {
+                parse_digits(input, &mut s)?;
+            }
+            if input.peek() == Some('.') {
+                input.consume_str(".")?;
+                s.push('.');
+                parse_digits(input, &mut s)?;
+            }
+            if let Some('e') | Some('E') = input.peek() {
+                input.next();
+                s.push('e');
+                if let Some(sign @ '+') | Some(sign @ '-') = input.peek() {
+                    input.next();
+                    s.push(sign);
+                }
+                parse_digits(input, &mut s)?;
+            }
+            Ok(s.parse().unwrap())
+        }
+
         skip_ws(input);
 
         let res = match input
@@ -194,16 +241,7 @@ impl Parse for Value {
             'n' => input.consume_str("null").map(|_| Value::Null),
             't' => input.consume_str("true").map(|_| Value::Bool(true)),
             'f' => input.consume_str("false").map(|_| Value::Bool(false)),
-            '0'..='9' | '-' => {
-                let mut s = String::new();
-                s.push(input.next().unwrap());
-                while input.peek().map_or(false, |c| {
-                    matches!(c, '0'..='9' | '+' | '-' | '.' | 'e' | 'E')
-                }) {
-                    s.push(input.next().unwrap());
-                }
-                s.parse().map(Value::Number).map_err(|_| todo!())
-            }
+            '0'..='9' | '-' => parse_number(input).map(Value::Number),
             '"' => parse_str(input).map(Value::String),
             '[' => {
                 const ARRAY_TAIL: &[char] = &[',', ']'];
-- 
2.43.0


From 18e98dc0c2a38ca726eee8e7a01b6b03053b5f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:19 +0000
Subject: [PATCH 15/22] fix: the table-driven JSON reader rejects a number that
 ends in its point

---
 chomp-bench/src/json/lalr.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chomp-bench/src/json/lalr.lalrpop b/chomp-bench/src/json/lalr.lalrpop
index b5a8401..844974d 100644
--- a/chomp-bench/src/json/lalr.lalrpop
+++ b/chomp-bench/src/json/lalr.lalrpop
@@ -24,7 +24,7 @@ pub Value: Value = {
     },
 };
 
-pub Num: f64 = r"-?(0|[1-9][0-9]*)(\.[0-9]*)?([eE][-+]?[0-9]+)?" => f64::from_str(<>).unwrap();
+pub Num: f64 = r"-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][-+]?[0-9]+)?" => f64::from_str(<>).unwrap();
 
 pub Str: String = r#""([^\\"]|\\.)*""# => {
     let mut out = String::new();
-- 
2.43.0


From caff68690a9d64969848bee61b8fc6668a4ac37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:49 +0000
Subject: [PATCH 16/22] fix: the hand-written JSON reader reports bad
 characters in strings

---
 chomp-bench/src/json/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 53d6351..53880ba 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -143,6 +143,7 @@ impl Parse for Value {
         }
 
         fn parse_str<P: chewed::Parser + ?Sized>(input: &mut P) -> Result<String, TakeError> {
+            const ESCAPE: &[char] = &['"', '\\', '/', 'b', 'f', 'n', 'r', 't', 'u'];
             input.consume_str("\"")?;
             let mut s = String::new();
             loop {
@@ -178,10 +179,10 @@ impl Parse for Value {
                                 };
                                 s.push(codepoint.try_into().unwrap())
                             }
-                            c => return Err(TakeError::BadBranch(input.pos(), c, todo!())),
+                            c => return Err(TakeError::BadBranch(input.pos(), c, ESCAPE)),
                         }
                     }
-                    c => return Err(TakeError::BadBranch(input.pos(), c, todo!())),
+                    c => return Err(TakeError::BadBranch(input.pos(), c, &['"', '\\'])),
                 }
             }
         }
-- 
2.43.0


From 0f377641f9445953febc779812fd99161ee2a0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 17/22] fix: JSON values with control characters can be printed

---
 chomp-bench/src/json/mod.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 53880ba..b0c4898 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -48,12 +48,7 @@ impl fmt::Display for Value {
                     '\x0A' => write!(f, r#"\n"#),
                     '\x0D' => write!(f, r#"\r"#),
                     '\x09' => write!(f, r#"\t"#),
-                    _ => {
-                        let codepoint = u32::from(c) - 0x10000;
-                        let high: u16 = (codepoint / 0x400 + 0xD800).try_into().unwrap();
-                        let low: u16 = (codepoint % 0x400 + 0xDC00).try_into().unwrap();
-                        write!(f, r#"\u{:04X}\u{:04X}"#, high, low)
-                    }
+                    _ => write!(f, r#"\u{:04X}"#, u32::from(c)),
                 }?;
             }
             write!(f, "\"")
-- 
2.43.0


From a56f9946bf1b0abe8d93cb44a5ed0cea3220c3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:13 +0000
Subject: [PATCH 18/22] fix: the table-driven JSON reader reports bad strings
 instead of panicking

---
 chomp-bench/src/json/lalr.lalrpop | 26 ++++++++++++--------------
 chomp-bench/src/json/mod.rs       |  8 ++++++++
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/chomp-bench/src/json/lalr.lalrpop b/chomp-bench/src/json/lalr.lalrpop
index 844974d..7e535e4 100644
--- a/chomp-bench/src/json/lalr.lalrpop
+++ b/chomp-bench/src/json/lalr.lalrpop
@@ -1,7 +1,9 @@
-use super::{decode_pair, Value};
+use super::{decode_pair, take_hex, Value};
 
 use std::{collections::HashMap, convert::TryInto, str::FromStr};
 
+use lalrpop_util::ParseError;
+
 grammar;
 
 pub Value: Value = {
@@ -26,7 +28,7 @@ pub Value: Value = {
 
 pub Num: f64 = r"-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][-+]?[0-9]+)?" => f64::from_str(<>).unwrap();
 
-pub Str: String = r#""([^\\"]|\\.)*""# => {
+pub Str: String = r#""([^\\"]|\\.)*""# =>? {
     let mut out = String::new();
     let mut iter = <>.chars();
     iter.next();
@@ -44,26 +46,22 @@ pub Str: String = r#""([^\\"]|\\.)*""# => {
                 'r' => '\x0D',
                 't' => '\x09',
                 'u' => {
-                    let v = iter.by_ref().take(4).collect::<String>();
-                    assert_eq!(v.len(), 4);
-                    let v = u16::from_str_radix(&v, 16).unwrap();
+                    let v = take_hex(&mut iter).ok_or(ParseError::User { error: "bad unicode escape" })?;
                     let codepoint = if (0xD800..=0xDFFF).contains(&v) {
-                        let skipped = iter.by_ref().take(2).collect::<String>();
-                        assert_eq!(skipped, "\\u");
-                        let o = iter.by_ref().take(4).collect::<String>();
-                        assert_eq!(o.len(), 4);
-                        let o = u16::from_str_radix(&o, 16).unwrap();
-                        decode_pair(v, o)
+                        if iter.next() != Some('\\') || iter.next() != Some('u') {
+                            return Err(ParseError::User { error: "lone surrogate" });
+                        }
+                        decode_pair(v, take_hex(&mut iter).ok_or(ParseError::User { error: "bad unicode escape" })?)
                     } else {
                         u32::from(v)
                     };
                     codepoint.try_into().unwrap()
                 }
-                c => panic!("bad escape sequence {}", c),
+                _ => return Err(ParseError::User { error: "bad escape sequence" }),
             }
-            c => panic!("invalid character {}", c),
+            _ => return Err(ParseError::User { error: "invalid character" }),
         };
         out.push(c);
     }
-    out
+    Ok(out)
 };
diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index b0c4898..3cba333 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -23,6 +23,14 @@ fn decode_pair(one: u16, other: u16) -> u32 {
     u32::from(high - 0xD800) * 0x400 + u32::from(low - 0xDC00) + 0x10000
 }
 
+fn take_hex(iter: &mut impl Iterator<Item = char>) -> Option<u16> {
+    let mut out = 0;
+    for _ in 0..4 {
+        out = out * 16 + iter.next()?.to_digit(16)? as u16;
+    }
+    Some(out)
+}
+
 #[derive(Debug)]
 pub enum Value {
     Null,
-- 
2.43.0


From d0ccc5d1786e961caec23394f32d4cba56b68f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:11 +0000
Subject: [PATCH 19/22] fix: do not panic on kinds of literal unknown to syn

---
 src/nibble/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/nibble/mod.rs b/src/nibble/mod.rs
index 97bfbfe..2ccdb7f 100644
--- a/src/nibble/mod.rs
+++ b/src/nibble/mod.rs
@@ -96,8 +96,21 @@ impl ToTokens for Term {
     }
 }
 
+/// Is the next token a literal other than a string? `syn` panics when it looks
+/// at a kind of literal it does not know, such as `c"..."`.
+fn peek_other_literal(input: ParseStream<'_>) -> bool {
+    input.cursor().literal().map_or(false, |(lit, _)| {
+        let repr = lit.to_string();
+        !repr.starts_with('"') && !repr.starts_with('r')
+    })
+}
+
 impl Parse for Term {
     fn parse(input: ParseStream<'_>) -> syn::Result<Self> {
+        if peek_other_literal(input) {
+            return Err(input.error("expected string literal"));
+        }
+
         let lookahead = input.lookahead1();
 
         if lookahead.peek(Token![_]) {
@@ -140,7 +153,7 @@ impl ToTokens for Call {
 impl Parse for Call {
     fn parse(input: ParseStream<'_>) -> syn::Result<Self> {
         let mut out = vec![input.parse()?];
-        loop {
+        while !peek_other_literal(input) {
             let lookahead = input.lookahead1();
             if lookahead.peek(Token![_])
                 || lookahead.peek(LitStr)
-- 
2.43.0


From 765c0b2bab4e2c404cf0d732dcaabfa796e72ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 20/22] fix: generated names never clash with one another

---
 src/lower/mod.rs | 74 ++++++++++++++++++++++++++++--------------------
 1 file changed, 44 insertions(+), 30 deletions(-)

diff --git a/src/lower/mod.rs b/src/lower/mod.rs
index d0a96be..b25b921 100644
--- a/src/lower/mod.rs
+++ b/src/lower/mod.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{BTreeSet, HashMap},
+    collections::{BTreeSet, HashMap, HashSet},
     convert::TryInto,
 };
 
@@ -25,6 +25,37 @@ struct Ty {
     deps: BTreeSet<usize>,
 }
 
+/// The numbered names given out in one namespace.
+#[derive(Debug, Default)]
+struct Names {
+    counts: HashMap<Ident, usize>,
+    used: HashSet<Ident>,
+}
+
+impl Names {
+    /// Numbers `prefix` with the first number, starting from `number`, that gives an unused name.
+    fn unused(&mut self, prefix: &str, mut number: usize, span: Span) -> (Ident, usize) {
+        loop {
+            let name = format_ident!("{}{}", prefix, number, span = span);
+            if self.used.insert(name.clone()) {
+                return (name, number);
+            }
+            number += 1;
+        }
+    }
+
+    fn anonymous(&mut self, prefix: &str, number: usize, span: Span) -> Ident {
+        self.unused(prefix, number, span).0
+    }
+
+    fn named(&mut self, name: Ident) -> Ident {
+        let count = self.counts.get(&name).copied().unwrap_or_default();
+        let (numbered, count) = self.unused(&name.to_string(), count + 1, name.span());
+        self.counts.insert(name, count);
+        numbered
+    }
+}
+
 #[derive(Debug)]
 pub struct RustBackend {
     // Indexed by ID, stores type, impl and dependencies
@@ -35,7 +66,7 @@ pub struct RustBackend {
     alt_map: HashMap<Vec<usize>, usize>,
     fix_map: HashMap<(TypedExpression, Vec<usize>), usize>, // Key includes IDs of outer fix points
     var_map: HashMap<usize, usize>, // Key is fix point ID
-    name_map: HashMap<Ident, usize>,
+    names: Names,
     can_char: BTreeSet<usize>,
     context: Vec<usize>,
 }
@@ -47,13 +78,8 @@ impl RustBackend {
         let id = self.data.len();
 
         match name {
-            None => (id, format_ident!("{}{}", prefix, id + 1, span = span)),
-            Some(name) => {
-                let name: Ident = name.to_camel_case().into();
-                let count = self.name_map.entry(name.clone()).or_insert(0);
-                *count += 1;
-                (id, format_ident!("{}{}", name, count))
-            }
+            None => (id, self.names.anonymous(prefix, id + 1, span)),
+            Some(name) => (id, self.names.named(name.to_camel_case().into())),
         }
     }
 
@@ -100,17 +126,12 @@ impl RustBackend {
         default: &'a str,
         iter: I,
     ) -> impl Iterator<Item = Ident> + '_ {
-        let mut name_map = HashMap::new();
+        let mut names = Names::default();
         iter.into_iter()
             .enumerate()
             .map(move |(index, (name, span))| match name {
-                None => format_ident!("{}{}", default, index + 1, span = span),
-                Some(name) => {
-                    let name: Ident = name.to_snake_case().into();
-                    let count = name_map.entry(name.clone()).or_insert(0_usize);
-                    *count += 1;
-                    format_ident!("{}{}", name, count)
-                }
+                None => names.anonymous(default, index + 1, span),
+                Some(name) => names.named(name.to_snake_case().into()),
             })
     }
 
@@ -118,17 +139,12 @@ impl RustBackend {
         default: &'a str,
         iter: I,
     ) -> impl Iterator<Item = Ident> + '_ {
-        let mut name_map = HashMap::new();
+        let mut names = Names::default();
         iter.into_iter()
             .enumerate()
             .map(move |(index, (name, span))| match name {
-                None => format_ident!("{}{}", default, index + 1, span = span),
-                Some(name) => {
-                    let name: Ident = name.to_camel_case().into();
-                    let count = name_map.entry(name.clone()).or_insert(0_usize);
-                    *count += 1;
-                    format_ident!("{}{}", name, count)
-                }
+                None => names.anonymous(default, index + 1, span),
+                Some(name) => names.named(name.to_camel_case().into()),
             })
     }
 }
@@ -143,7 +159,7 @@ impl Default for RustBackend {
             alt_map: HashMap::new(),
             fix_map: HashMap::new(),
             var_map: HashMap::new(),
-            name_map: HashMap::new(),
+            names: Names::default(),
             can_char: BTreeSet::new(),
             context: Vec::new(),
         }
@@ -433,7 +449,7 @@ impl Backend for RustBackend {
         id
     }
 
-    fn emit_code(self, name: Option<Name>, span: Span, id: Self::Id) -> Self::Code {
+    fn emit_code(mut self, name: Option<Name>, span: Span, id: Self::Id) -> Self::Code {
         let mut tokens = quote_spanned! {span=>
             use ::chewed::*;
         };
@@ -455,9 +471,7 @@ impl Backend for RustBackend {
         let root_name = self.data[id].name.clone();
 
         tokens.extend(if let Some(name) = name {
-            let name = name.into();
-            let count = self.name_map.get(&name).copied().unwrap_or_default() + 1;
-            let name = format_ident!("{}{}", name, count);
+            let name = self.names.named(name.into());
             quote_spanned! {span=>
                 pub type #name = #root_name;
             }
-- 
2.43.0


From f5ba921e0ddfdf09cc0e9ab261892f5f893f1f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:58 +0000
Subject: [PATCH 21/22] fix: the table-driven JSON reader takes only JSON's
 white space

---
 chomp-bench/src/json/lalr.lalrpop | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chomp-bench/src/json/lalr.lalrpop b/chomp-bench/src/json/lalr.lalrpop
index 7e535e4..49b08af 100644
--- a/chomp-bench/src/json/lalr.lalrpop
+++ b/chomp-bench/src/json/lalr.lalrpop
@@ -6,6 +6,11 @@ use lalrpop_util::ParseError;
 
 grammar;
 
+match {
+    r"[ \t\n\r]+" => { },
+    _
+}
+
 pub Value: Value = {
     "null" => Value::Null,
     "true" => Value::Bool(true),
-- 
2.43.0


From 2090e64cafe7589db3c0ab27bd0e24ef2730f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:10 +0000
Subject: [PATCH 22/22] fix: the table-driven arithmetic evaluator takes only
 the space as white space

---
 chomp-bench/src/arith/lalr.lalrpop | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chomp-bench/src/arith/lalr.lalrpop b/chomp-bench/src/arith/lalr.lalrpop
index fe21d01..7a922e5 100644
--- a/chomp-bench/src/arith/lalr.lalrpop
+++ b/chomp-bench/src/arith/lalr.lalrpop
@@ -2,6 +2,11 @@ use std::str::FromStr;
 
 grammar;
 
+match {
+    r" +" => { },
+    _
+}
+
 pub Expression: i64 = {
     <p : Product> <v : (<AddOp> <Product>)*> => {
         v.into_iter().fold(p, |acc, (op, p)| if op { acc + p } else { acc - p })
-- 
2.43.0

