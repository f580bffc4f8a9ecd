From deb4bd4323cf17a523c734e7a65022b341ba4ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 01/52] fix: infer numbers with an exponent as floating point

---
 json_typegen_shared/src/inference/jsoninfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 7ec2375..21301d4 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -79,7 +79,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
             JsonToken::True | JsonToken::False => Ok(Shape::Bool),
             JsonToken::Null => Ok(Shape::Null),
             JsonToken::Number(s) => {
-                if s.contains('.') {
+                if s.contains(['.', 'e', 'E']) {
                     Ok(Shape::Floating)
                 } else {
                     Ok(Shape::Integer)
-- 
2.43.0


From 73ad311577bfa1411d050be60fddcc639144e05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 02/52] fix: report parse errors in values with an opaque type
 hint

---
 json_typegen_shared/src/inference/jsoninfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 21301d4..721dc23 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -68,7 +68,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                 }
                 HintType::OpaqueType(ref t) => {
                     hint.used.set(true);
-                    let _ = self.infer_shape(options, &Hints::new()); // parse and discard the actual value
+                    let _ = self.infer_shape(options, &Hints::new())?; // parse and discard the actual value
                     return Ok(Shape::Opaque(t.clone()));
                 }
                 _ => {}
-- 
2.43.0


From 12918f40876af28c90b56bdcbdb1581e6af019de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:30 +0000
Subject: [PATCH 03/52] fix: do not panic on a map hint for an object above
 infer_map_threshold

---
 json_typegen_shared/src/inference/jsoninfer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 721dc23..3b6b45a 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -106,6 +106,8 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                     val_type: Box::new(inner),
                 })
             }
+            // already a map because of infer_map_threshold
+            map @ Shape::MapT { .. } => Ok(map),
             _ => {
                 panic!("Got non-object from infer_object")
             }
-- 
2.43.0


From 9400337e0ef72af00fc90ee23747864015620732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:32 +0000
Subject: [PATCH 04/52] fix: do not apply hints to nodes skipped by unwrap

---
 json_typegen_shared/src/inference/jsoninfer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 3b6b45a..d67ae96 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -245,7 +245,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                         folded = optional_common_shape(folded, result);
                     } else {
                         // parse and discard non-matched element (could use non-inference code)
-                        let _ = self.infer_shape(options, hints)?;
+                        let _ = self.infer_shape(options, &Hints::new())?;
                     }
 
                     if let Some(&Ok(JsonToken::ObjectEnd)) = self.tokens.peek() {
@@ -275,7 +275,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                         folded = optional_common_shape(folded, result);
                     } else {
                         // parse and discard non-matched element (could use non-inference code)
-                        let _ = self.infer_shape(options, hints)?;
+                        let _ = self.infer_shape(options, &Hints::new())?;
                     }
 
                     if let Some(&Ok(JsonToken::ArrayEnd)) = self.tokens.peek() {
-- 
2.43.0


From 9d1bc5e8203062249aea3dcca2a276be0ff02959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:35 +0000
Subject: [PATCH 05/52] fix: match index hints exactly after the first 12 array
 elements

---
 json_typegen_shared/src/inference/jsoninfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index d67ae96..f1c3756 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -177,7 +177,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                 let shape = self.infer_shape(options, &hints.step_index(len))?;
                 shapes.push(shape);
             } else {
-                let shape = self.infer_shape(options, &hints.step_array())?;
+                let shape = self.infer_shape(options, &hints.step_index(len))?;
                 folded = common_shape(shape, folded);
             }
             len += 1;
-- 
2.43.0


From b1d17f397c440cfa163e7b2a69e939ec66ba5530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:39 +0000
Subject: [PATCH 06/52] fix: support escaped characters in JSON pointers

---
 json_typegen_shared/src/hints.rs               | 11 ++++++++++-
 json_typegen_shared/src/inference/jsoninfer.rs |  4 ++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/hints.rs b/json_typegen_shared/src/hints.rs
index 745cc9b..53a37e8 100644
--- a/json_typegen_shared/src/hints.rs
+++ b/json_typegen_shared/src/hints.rs
@@ -46,6 +46,15 @@ fn is_index(s: &str) -> bool {
     s == "-" || s.bytes().all(|b| (b'0'..=b'9').contains(&b))
 }
 
+/// Whether a reference token of a JSON pointer (where `~1` means `/` and `~0` means `~`) is `name`
+pub fn token_matches(token: &str, name: &str) -> bool {
+    if token.contains('~') {
+        token.replace("~1", "/").replace("~0", "~") == name
+    } else {
+        token == name
+    }
+}
+
 impl<'a> Hints<'a> {
     pub fn new() -> Self {
         Hints {
@@ -72,7 +81,7 @@ impl<'a> Hints<'a> {
 
     /// ([/a/b, /a/c, /d/e], "a") -> [/b, /c]
     pub fn step_field(&self, name: &str) -> Hints {
-        self.step(|first| first == "-" || first == name)
+        self.step(|first| first == "-" || token_matches(first, name))
     }
 
     /// [/1/b, /a/c, /-/e] -> [/b, /c, /e]
diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index f1c3756..f3fc439 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -1,5 +1,5 @@
 use crate::Options;
-use crate::hints::{HintType, Hints};
+use crate::hints::{HintType, Hints, token_matches};
 use crate::inference::jsoninputerr::JsonInputErr;
 use crate::inference::jsonlex::{JsonLexer, JsonToken};
 use crate::shape::{Shape, common_shape};
@@ -240,7 +240,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
 
                     self.expect_token(JsonToken::Colon)?;
 
-                    if *first_token == "-" || *first_token == key {
+                    if *first_token == "-" || token_matches(first_token, &key) {
                         let result = self.unwrap(rest_of_pointer, options, hints)?;
                         folded = optional_common_shape(folded, result);
                     } else {
-- 
2.43.0


From 7f38b74a3349e05387c3f8e9e8c88640a1f7a88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:42 +0000
Subject: [PATCH 07/52] fix: keep track of fields that are missing or null as
 optional

---
 json_typegen_shared/src/shape.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index e496c11..41c6b33 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -115,9 +115,8 @@ impl Shape {
     pub(crate) fn into_optional(self) -> Self {
         use self::Shape::*;
         match self {
-            Null => Nullable(Box::new(self)),
             Any | Bottom | Optional(_) => self,
-            non_nullable => Optional(Box::new(non_nullable)),
+            non_optional => Optional(Box::new(non_optional)),
         }
     }
     pub(crate) fn into_nullable(self) -> Self {
-- 
2.43.0


From 15fb477dd8a9516526e8b354c3602d6d956b74a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 08/52] fix: do not nest nullability when several nulls are
 merged

---
 json_typegen_shared/src/shape.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index 41c6b33..68ec681 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -122,9 +122,8 @@ impl Shape {
     pub(crate) fn into_nullable(self) -> Self {
         use self::Shape::*;
         match self {
-            Null => Nullable(Box::new(self)),
-            Any | Bottom | Nullable(_) => self,
-            Optional(non_nullable) => Optional(Box::new(Nullable(non_nullable))),
+            Any | Bottom | Null | Nullable(_) => self,
+            Optional(inner) => Optional(Box::new(inner.into_nullable())),
             non_nullable => Nullable(Box::new(non_nullable)),
         }
     }
-- 
2.43.0


From 116c19d3906673fd83817639046aa6acfee6efeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:18 +0000
Subject: [PATCH 09/52] fix: escape strings in JSON schemas and shape output

---
 json_typegen_shared/src/generation/value.rs | 22 +++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/generation/value.rs b/json_typegen_shared/src/generation/value.rs
index 8e117bc..9ae8a6e 100644
--- a/json_typegen_shared/src/generation/value.rs
+++ b/json_typegen_shared/src/generation/value.rs
@@ -15,7 +15,7 @@ pub fn pretty_print_value(indent: usize, value: &Value) -> String {
         Value::Null => "null".to_string(),
         Value::Bool(b) => format!("{}", b),
         Value::Str(s) => format!("\"{}\"", s),
-        Value::String(s) => format!("\"{}\"", s),
+        Value::String(s) => json_string(s),
         Value::Array(values) => {
             let mut code = "[\n".to_string();
             let len = values.len();
@@ -36,7 +36,7 @@ pub fn pretty_print_value(indent: usize, value: &Value) -> String {
             let len = map.len();
             for (i, (key, val)) in map.iter().enumerate() {
                 code += &"  ".repeat(indent + 1);
-                code += &format!("\"{}\": ", key);
+                code += &format!("{}: ", json_string(key));
                 code += &pretty_print_value(indent + 1, val);
                 if i != len - 1 {
                     code += ",";
@@ -49,3 +49,21 @@ pub fn pretty_print_value(indent: usize, value: &Value) -> String {
         }
     }
 }
+
+/// A JSON string literal, which is also a string literal in JavaScript and Python
+pub fn json_string(s: &str) -> String {
+    let mut code = String::from("\"");
+    for c in s.chars() {
+        match c {
+            '"' => code.push_str("\\\""),
+            '\\' => code.push_str("\\\\"),
+            '\n' => code.push_str("\\n"),
+            '\r' => code.push_str("\\r"),
+            '\t' => code.push_str("\\t"),
+            c if c.is_control() => code.push_str(&format!("\\u{:04x}", c as u32)),
+            c => code.push(c),
+        }
+    }
+    code.push('"');
+    code
+}
-- 
2.43.0


From 2a1f807df4f49d61e25849c0e3abae7dcdc8b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:21 +0000
Subject: [PATCH 10/52] fix: allow null for nullable values in JSON schemas

---
 json_typegen_shared/src/generation/json_schema.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/json_schema.rs b/json_typegen_shared/src/generation/json_schema.rs
index 6f4ad48..e5e905f 100644
--- a/json_typegen_shared/src/generation/json_schema.rs
+++ b/json_typegen_shared/src/generation/json_schema.rs
@@ -53,7 +53,16 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> Value {
         MapT { val_type: v } => generate_map_type(ctxt, path, v),
         Opaque(t) => Value::Object(string_hashmap! { "type" => Value::String(t.clone()) }),
         Optional(e) => type_from_shape(ctxt, path, e),
-        Nullable(e) => type_from_shape(ctxt, path, e),
+        Nullable(e) => {
+            let mut value = type_from_shape(ctxt, path, e);
+            if let Value::Object(ref mut map) = value {
+                if let Some(typ) = map.get_mut("type") {
+                    let inner = std::mem::replace(typ, Value::Null);
+                    *typ = Value::Array(vec![inner, Value::Str("null")]);
+                }
+            }
+            value
+        }
     }
 }
 
-- 
2.43.0


From 86ac62ffda696cb1da8d249ea6b7932b78e883f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:24 +0000
Subject: [PATCH 11/52] fix: report an error for SQL without a CREATE TABLE
 statement

---
 json_typegen_shared/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/lib.rs b/json_typegen_shared/src/lib.rs
index 87ee91b..52c6afc 100644
--- a/json_typegen_shared/src/lib.rs
+++ b/json_typegen_shared/src/lib.rs
@@ -112,8 +112,10 @@ pub fn codegen(name: &str, input: &str, mut options: Options) -> Result<String,
     let shape = match options.input_mode {
         options::InputMode::Sql => {
             let shapes = sql::sql_to_shape(input).map_err(JTError::SqlParsingError)?;
-            let (_name, shap) = shapes.get(0).unwrap();
-            shap.clone()
+            let (_name, shap) = shapes.into_iter().next().ok_or_else(|| {
+                JTError::SqlParsingError("No CREATE TABLE statement found".to_string())
+            })?;
+            shap
         }
         options::InputMode::Json => infer_from_sample(&source, &options, &hints)?,
     };
-- 
2.43.0


From a0129822698cea2ce9998388768ec37fa08ea140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:27 +0000
Subject: [PATCH 12/52] fix: leave quote characters out of the names of quoted
 SQL columns

---
 json_typegen_shared/src/sql.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/sql.rs b/json_typegen_shared/src/sql.rs
index d16fa1d..d26ffb4 100644
--- a/json_typegen_shared/src/sql.rs
+++ b/json_typegen_shared/src/sql.rs
@@ -15,7 +15,7 @@ pub fn sql_to_shape(input: &str) -> Result<Vec<(String, Shape)>, String> {
                     fields: columns
                         .iter()
                         .map(|column: &ColumnDef| {
-                            (column.name.to_string(), shape_for_column(column))
+                            (column.name.value.clone(), shape_for_column(column))
                         })
                         .collect(),
                 },
-- 
2.43.0


From b32deab36f59738405ea586c35166d9c0247a919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:49 +0000
Subject: [PATCH 13/52] fix: only reuse types with a nullable field where the
 field is always null

---
 json_typegen_shared/src/shape.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index 68ec681..84704d4 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -137,7 +137,8 @@ impl Shape {
         }
         match (self, other) {
             (_, Bottom) => true,
-            (Optional(_), Null) => true,
+            (Optional(a), Null) => a.is_acceptable_substitution_for(other),
+            (Nullable(_), Null) => true,
             (Optional(a), Optional(b)) => a.is_acceptable_substitution_for(b),
             (VecT { elem_type: e1 }, VecT { elem_type: e2 }) => {
                 e1.is_acceptable_substitution_for(e2)
-- 
2.43.0


From ca97e018dcc52c56ecaeaf79f4f679a9228c7355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:52 +0000
Subject: [PATCH 14/52] fix: reuse types with equal nullable fields

---
 json_typegen_shared/src/shape.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index 84704d4..3932156 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -139,7 +139,9 @@ impl Shape {
             (_, Bottom) => true,
             (Optional(a), Null) => a.is_acceptable_substitution_for(other),
             (Nullable(_), Null) => true,
-            (Optional(a), Optional(b)) => a.is_acceptable_substitution_for(b),
+            (Optional(a), Optional(b)) | (Nullable(a), Nullable(b)) => {
+                a.is_acceptable_substitution_for(b)
+            }
             (VecT { elem_type: e1 }, VecT { elem_type: e2 }) => {
                 e1.is_acceptable_substitution_for(e2)
             }
-- 
2.43.0


From 3008a9be5f2941c7343eb66ca65183532225a431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:55 +0000
Subject: [PATCH 15/52] fix: keep opaque types nullable independent of the
 order of values

---
 json_typegen_shared/src/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index 3932156..041d41d 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -81,8 +81,8 @@ pub fn common_shape(a: Shape, b: Shape) -> Shape {
         (Struct { fields: f1 }, Struct { fields: f2 }) => Struct {
             fields: common_field_shapes(f1, f2),
         },
-        (Opaque(t), _) | (_, Opaque(t)) => Opaque(t),
         (a, Nullable(b)) | (Nullable(b), a) => common_shape(a, *b).into_nullable(),
+        (Opaque(t), _) | (_, Opaque(t)) => Opaque(t),
         _ => Any,
     }
 }
-- 
2.43.0


From 94f2f6fb0bfe68e187383051d266c739519ca5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 16/52] fix: escape property names in serde rename attributes

---
 json_typegen_shared/src/generation/rust.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 0921a82..fc2e82e 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -252,7 +252,7 @@ fn generate_struct_type(
             };
             let mut field_code = String::new();
             if needs_rename {
-                field_code += &format!("    #[serde(rename = \"{}\")]\n", name)
+                field_code += &format!("    #[serde(rename = {:?})]\n", name)
             }
 
             let (is_collapsed, collapsed) = collapse_option_vec(ctxt, typ);
-- 
2.43.0


From 5c041ba3e9a1130a6f119111ca547cd1bf3118ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 17/52] fix: add missing Rust keywords

---
 json_typegen_shared/src/generation/rust.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index fc2e82e..13de0b4 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -154,7 +154,7 @@ const RUST_KEYWORDS: &[&str] = &[
     "macro", "match", "mod", "move", "mut", "offsetof", "override", "priv", "proc", "pub", "pure",
     "ref", "return", "Self", "self", "sizeof", "static", "struct", "super", "trait", "true",
     "type", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield", "async",
-    "await", "try",
+    "await", "try", "dyn", "gen",
 ];
 
 fn type_or_field_name(
-- 
2.43.0


From 78e4bb50a676648ea1df0f5e9efa26cf5d77b028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:16 +0000
Subject: [PATCH 18/52] fix: keep nullable Rust fields optional with
 use_default_for_missing_fields

---
 json_typegen_shared/src/generation/rust.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 13de0b4..fd8f492 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -96,12 +96,9 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option
             }
         }
         Nullable(e) => {
+            // #[serde(default)] only covers missing fields, not fields that are null
             let (inner, defs) = type_from_shape(ctxt, path, e);
-            if ctxt.options.use_default_for_missing_fields {
-                (inner, defs)
-            } else {
-                (format!("Option<{}>", inner), defs)
-            }
+            (format!("Option<{}>", inner), defs)
         }
     }
 }
-- 
2.43.0


From 86f20b73b95f1b66a7e94a9ba922ab2bb7366326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 19/52] fix: do not generate a second field named
 additional_fields in Rust

---
 json_typegen_shared/src/generation/rust.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index fd8f492..c197f93 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -234,6 +234,9 @@ fn generate_struct_type(
     };
 
     let mut field_names = HashSet::new();
+    if ctxt.options.collect_additional {
+        field_names.insert("additional_fields".to_string());
+    }
     let mut defs = Vec::new();
 
     let fields: Vec<Code> = field_shapes
-- 
2.43.0


From 53323863e9905fc7f0e5609a9fb0f0df68381a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 20/52] fix: give additional_fields the visibility of the other
 fields

---
 json_typegen_shared/src/generation/rust.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index c197f93..3ab57f6 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -304,8 +304,13 @@ fn generate_struct_type(
         code += "\n";
     }
     if ctxt.options.collect_additional {
+        let mut visibility_prefix = field_visibility;
+        if !visibility_prefix.is_empty() {
+            visibility_prefix += " ";
+        }
         code += &format!(
-            "    #[serde(flatten)]\n    additional_fields: {}<String, {}>,\n",
+            "    #[serde(flatten)]\n    {}additional_fields: {}<String, {}>,\n",
+            visibility_prefix,
             import(ctxt, "std::collections::HashMap"),
             import(ctxt, "serde_json::Value"),
         )
-- 
2.43.0


From 01f2c3c31313a8f23d8b21c91dca15830da65091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:25 +0000
Subject: [PATCH 21/52] fix: collapse optional lists inferred from arrays of
 equal length

---
 json_typegen_shared/src/generation/rust.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 3ab57f6..32f0418 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -185,10 +185,23 @@ fn type_or_field_name(
     unreachable!()
 }
 
+/// Whether the generated type for the shape is a `Vec`
+fn is_vec(shape: &Shape) -> bool {
+    match shape {
+        Shape::VecT { .. } => true,
+        Shape::Tuple(shapes, _n) => !is_tuple(shapes),
+        _ => false,
+    }
+}
+
+fn is_tuple(shapes: &[Shape]) -> bool {
+    shape::fold_shapes(shapes.to_vec()) == Shape::Any && shapes.iter().any(|s| s != &Shape::Any)
+}
+
 fn collapse_option_vec<'a>(ctxt: &mut Ctxt, typ: &'a Shape) -> (bool, &'a Shape) {
     if !(ctxt.options.allow_option_vec || ctxt.options.use_default_for_missing_fields) {
         if let Shape::Optional(inner) = typ {
-            if let Shape::VecT { .. } = **inner {
+            if is_vec(inner) {
                 return (true, &**inner);
             }
         }
-- 
2.43.0


From cafd5e5424abdf18f4c9d9e73c602089fc600274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:53 +0000
Subject: [PATCH 22/52] fix: reserve requested names that are not in type case

---
 json_typegen_shared/src/generation/kotlin.rs     | 2 +-
 json_typegen_shared/src/generation/python.rs     | 2 +-
 json_typegen_shared/src/generation/rust.rs       | 2 +-
 json_typegen_shared/src/generation/typescript.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index ac35a2f..24ac22a 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -25,7 +25,7 @@ pub fn kotlin_types(name: &str, shape: &Shape, options: Options) -> Code {
         created_classes: Vec::new(),
     };
 
-    if !matches!(shape, Shape::Struct { .. }) {
+    if !matches!(shape, Shape::Struct { .. }) || type_name(name, &ctxt.type_names) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
     }
diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 5b086ac..b139730 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -53,7 +53,7 @@ pub fn python_types(name: &str, shape: &Shape, options: Options) -> Code {
         created_classes: Vec::new(),
     };
 
-    if !matches!(shape, Shape::Struct { .. }) {
+    if !matches!(shape, Shape::Struct { .. }) || type_name(name, &ctxt.type_names) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
     }
diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 32f0418..b6a7864 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -36,7 +36,7 @@ pub fn rust_types(name: &str, shape: &Shape, options: Options) -> Code {
             .join(", ");
     };
 
-    if !matches!(shape, Shape::Struct { .. }) {
+    if !matches!(shape, Shape::Struct { .. }) || type_name(name, &ctxt.type_names) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
     }
diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index 1015214..d22f42d 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -22,7 +22,7 @@ pub fn typescript_types(name: &str, shape: &Shape, options: Options) -> Code {
         created_interfaces: Vec::new(),
     };
 
-    if !matches!(shape, Shape::Struct { .. }) {
+    if !matches!(shape, Shape::Struct { .. }) || type_name(name, &ctxt.type_names) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
     }
-- 
2.43.0


From 3713a9cba8782d8f050203ac5eb73a4841851cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 23/52] fix: do not shadow the types that generated Rust code
 uses

---
 json_typegen_shared/src/generation/rust.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index b6a7864..a944563 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -41,6 +41,8 @@ pub fn rust_types(name: &str, shape: &Shape, options: Options) -> Code {
         ctxt.type_names.insert(name.to_string());
     }
 
+    reserve_used_names(&mut ctxt, name);
+
     let (ident, code) = type_from_shape(&mut ctxt, name, shape);
     let mut code = code.unwrap_or_default();
 
@@ -67,6 +69,20 @@ pub fn rust_types(name: &str, shape: &Shape, options: Options) -> Code {
     code
 }
 
+/// Reserve the names of the types the generated code refers to, so that they are not shadowed
+fn reserve_used_names(ctxt: &mut Ctxt, requested_name: &str) {
+    let mut used = vec!["String", "Vec", "Option"];
+    if ctxt.options.import_style != ImportStyle::QualifiedPaths {
+        used.extend(["HashMap", "Value"]);
+        used.extend(ctxt.options.derives.split(',').map(|s| s.trim()));
+    }
+    for name in used {
+        if name != requested_name {
+            ctxt.type_names.insert(name.to_string());
+        }
+    }
+}
+
 fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option<Code>) {
     use crate::shape::Shape::*;
     match shape {
-- 
2.43.0


From ee50b6e6db6621a196c466a76dadb2ab2a6c736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 24/52] fix: escape property names in Kotlin annotations

---
 json_typegen_shared/src/generation/kotlin.rs | 24 ++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index 24ac22a..167bf54 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -178,6 +178,22 @@ fn type_or_field_name(
     unreachable!()
 }
 
+fn string_literal(s: &str) -> String {
+    let mut literal = String::from("\"");
+    for c in s.chars() {
+        match c {
+            '"' | '\\' | '$' => {
+                literal.push('\\');
+                literal.push(c);
+            }
+            c if c.is_control() => literal += &format!("\\u{:04x}", c as u32),
+            c => literal.push(c),
+        }
+    }
+    literal.push('"');
+    literal
+}
+
 fn import(ctxt: &mut Ctxt, qualified: &str) -> String {
     match ctxt.options.import_style {
         ImportStyle::AddImports => {
@@ -225,15 +241,15 @@ fn generate_data_class(
             if &apply_transform(ctxt, &field_name) != name {
                 if ctxt.options.output_mode == OutputMode::KotlinJackson {
                     field_code += &format!(
-                        "    @{}(\"{}\")\n",
+                        "    @{}({})\n",
                         import(ctxt, "com.fasterxml.jackson.annotation.JsonProperty"),
-                        name
+                        string_literal(name)
                     )
                 } else if ctxt.options.output_mode == OutputMode::KotlinKotlinx {
                     field_code += &format!(
-                        "    @{}(\"{}\")\n",
+                        "    @{}({})\n",
                         import(ctxt, "kotlinx.serialization.SerialName"),
-                        name
+                        string_literal(name)
                     )
                 }
             }
-- 
2.43.0


From 248421eb9a8052cc8ceb2ddebc7ed22282f1ff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:39 +0000
Subject: [PATCH 25/52] fix: correct the annotation for kebab case in Kotlin

---
 json_typegen_shared/src/generation/kotlin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index 167bf54..a8176d4 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -336,7 +336,7 @@ fn transform_annotation(ctxt: &mut Ctxt) -> String {
             jackson_naming_annotation(ctxt, "SnakeCaseStrategy")
         }
         (Some(StringTransform::KebabCase), OutputMode::KotlinJackson) => {
-            jackson_naming_annotation(ctxt, "KebabCaseStrategy::class)")
+            jackson_naming_annotation(ctxt, "KebabCaseStrategy")
         }
         _ => "".into(),
     }
-- 
2.43.0


From 4edb4b3cb0ddf6cbd637218fba1657b950d66d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 26/52] fix: treat typeof as a Kotlin keyword

---
 json_typegen_shared/src/generation/kotlin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index a8176d4..f74ad8c 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -144,7 +144,7 @@ fn type_name(name: &str, used_names: &HashSet<String>) -> Ident {
 const KOTLIN_KEYWORDS: &[&str] = &[
     "as", "break", "class", "continue", "do", "else", "false", "for", "fun", "if", "in",
     "interface", "is", "null", "object", "package", "return", "super", "this", "throw", "true",
-    "try", "typealias", "val", "var", "when", "while",
+    "try", "typealias", "typeof", "val", "var", "when", "while",
 ];
 
 fn type_or_field_name(
-- 
2.43.0


From aa179aa741eb53176d5454f82890174320b8adb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:44 +0000
Subject: [PATCH 27/52] fix: do not shadow the types that generated Kotlin code
 uses

---
 json_typegen_shared/src/generation/kotlin.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index f74ad8c..508ac5b 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -30,6 +30,13 @@ pub fn kotlin_types(name: &str, shape: &Shape, options: Options) -> Code {
         ctxt.type_names.insert(name.to_string());
     }
 
+    for used in USED_NAMES {
+        // do not shadow the types the generated code refers to
+        if *used != name {
+            ctxt.type_names.insert(used.to_string());
+        }
+    }
+
     let (ident, code) = type_from_shape(&mut ctxt, name, shape);
     let mut code = code.unwrap_or_default();
 
@@ -147,6 +154,14 @@ const KOTLIN_KEYWORDS: &[&str] = &[
     "try", "typealias", "typeof", "val", "var", "when", "while",
 ];
 
+// Types that generated code refers to by their simple names
+#[rustfmt::skip]
+const USED_NAMES: &[&str] = &[
+    "Any", "Boolean", "Double", "List", "Long", "Map", "Pair", "String", "Triple",
+    "JsonAnyGetter", "JsonAnySetter", "JsonNaming", "JsonProperty", "PropertyNamingStrategies",
+    "SerialName", "Serializable",
+];
+
 fn type_or_field_name(
     name: &str,
     used_names: &HashSet<String>,
-- 
2.43.0


From b6b42bafe476d72c5829b9be5fe1e4cb569d7866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 28/52] fix: escape aliases in Python

---
 json_typegen_shared/src/generation/python.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index b139730..80fcc79 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -220,6 +220,22 @@ fn type_or_field_name(
     unreachable!()
 }
 
+fn string_literal(s: &str) -> String {
+    let mut literal = String::from("\"");
+    for c in s.chars() {
+        match c {
+            '"' | '\\' => {
+                literal.push('\\');
+                literal.push(c);
+            }
+            c if c.is_control() => literal += &format!("\\u{:04x}", c as u32),
+            c => literal.push(c),
+        }
+    }
+    literal.push('"');
+    literal
+}
+
 fn import(ctxt: &mut Ctxt, import: Import) -> String {
     ctxt.imports.insert(import);
     match ctxt.options.import_style {
@@ -266,9 +282,9 @@ fn generate_data_class(
             let transformed = apply_transform(ctxt, &field_name, name);
             if transformed != field_name {
                 field_code += &format!(
-                    " = {}(alias=\"{}\")",
+                    " = {}(alias={})",
                     import(ctxt, Import::Field),
-                    transformed
+                    string_literal(&transformed)
                 )
             }
 
-- 
2.43.0


From 58242428d36078e555d2c6e3cbb34b5e99949630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 29/52] fix: do not shadow the imports of generated Python code

---
 json_typegen_shared/src/generation/python.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 80fcc79..12e7127 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -58,6 +58,15 @@ pub fn python_types(name: &str, shape: &Shape, options: Options) -> Code {
         ctxt.type_names.insert(name.to_string());
     }
 
+    if ctxt.options.import_style != ImportStyle::QualifiedPaths {
+        for used in ["Any", "Optional", "BaseModel", "Field"] {
+            // do not shadow the names the generated code refers to
+            if used != name {
+                ctxt.type_names.insert(used.to_string());
+            }
+        }
+    }
+
     let (ident, code) = type_from_shape(&mut ctxt, name, shape);
     let mut code = code.unwrap_or_default();
 
-- 
2.43.0


From 37c09959f9cf728c4c1898972e5e012e0068dba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 30/52] fix: do not shadow builtin types with Python fields

---
 json_typegen_shared/src/generation/python.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 12e7127..7b047e0 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -198,6 +198,12 @@ const PYTHON_KEYWORDS: &[&str] = &[
     "raise", "return", "try", "while", "with", "yield",
 ];
 
+// Fields with these names would shadow the types and modules that later annotations refer to
+#[rustfmt::skip]
+const PYTHON_TYPES: &[&str] = &[
+    "bool", "dict", "float", "int", "list", "str", "tuple", "pydantic", "typing",
+];
+
 fn type_or_field_name(
     name: &str,
     used_names: &HashSet<String>,
@@ -206,7 +212,7 @@ fn type_or_field_name(
 ) -> Ident {
     let name = name.trim();
     let mut output_name = case_fn(name);
-    if PYTHON_KEYWORDS.contains(&&*output_name) {
+    if PYTHON_KEYWORDS.contains(&&*output_name) || PYTHON_TYPES.contains(&&*output_name) {
         output_name.push_str("_field");
     }
     if output_name.is_empty() {
-- 
2.43.0


From 1e09e3c8fee56ab69ea37bd876c41e6ab81aa588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 31/52] fix: keep Python class names that start with a number
 apart from field names

---
 json_typegen_shared/src/generation/python.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 7b047e0..c5fc61f 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -220,7 +220,7 @@ fn type_or_field_name(
     }
     if let Some(c) = output_name.chars().next() {
         if c.is_ascii_digit() {
-            output_name = String::from("n") + &output_name;
+            output_name = case_fn(&(String::from("n") + &output_name));
         }
     }
     if !used_names.contains(&output_name) {
-- 
2.43.0


From 2d47a2dd540a33f01c6e2911a5a18170df8d8556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 32/52] fix: separate the properties of Zod objects with commas

---
 json_typegen_shared/src/generation/zod_schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/zod_schema.rs b/json_typegen_shared/src/generation/zod_schema.rs
index 6045b9b..83fcd63 100644
--- a/json_typegen_shared/src/generation/zod_schema.rs
+++ b/json_typegen_shared/src/generation/zod_schema.rs
@@ -111,7 +111,7 @@ fn generate_struct_from_field_shapes(ctxt: &mut Ctxt, map: &LinkedHashMap<String
             let escape_name = !is_ts_identifier(name);
 
             format!(
-                "{}{}{}{}: {};",
+                "{}{}{}{}: {},",
                 "    ".repeat(ctxt.indent_level),
                 if escape_name { "\"" } else { "" },
                 name,
-- 
2.43.0


From 0778e76f11ffb9fdd4c2294363a0d2493a6c1b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 33/52] fix: parenthesise the elements of arrays of nullable
 values in TypeScript

---
 json_typegen_shared/src/generation/typescript.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index d22f42d..f5cf65f 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -75,6 +75,9 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option
 fn generate_vec_type(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option<Code>) {
     let singular = to_singular(path);
     let (inner, defs) = type_from_shape(ctxt, &singular, shape);
+    if inner.ends_with(" | null") || inner.ends_with(" | undefined") {
+        return (format!("({})[]", inner), defs);
+    }
     (format!("{}[]", inner), defs)
 }
 
-- 
2.43.0


From 31db9385b5599f6a886b4f27a9f590396b993db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 34/52] fix: do not start TypeScript interface names with a
 number

---
 json_typegen_shared/src/generation/typescript.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index f5cf65f..2f0f4a1 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -117,6 +117,9 @@ fn type_name(name: &str, used_names: &HashSet<String>) -> Ident {
     if output_name.is_empty() {
         output_name.push_str("GeneratedType");
     }
+    if output_name.starts_with(|c: char| c.is_ascii_digit()) {
+        output_name = String::from("N") + &output_name;
+    }
     if !used_names.contains(&output_name) {
         return output_name;
     }
-- 
2.43.0


From 4f395ecd7896d9651a7a7275776b3845889e97b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 35/52] fix: escape property names in TypeScript and Zod output

---
 .../src/generation/typescript.rs               | 18 +++++++++++++-----
 .../src/generation/typescript_type_alias.rs    | 10 ++++------
 .../src/generation/zod_schema.rs               | 10 ++++------
 3 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index 2f0f4a1..1f44a1d 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -1,6 +1,7 @@
 use linked_hash_map::LinkedHashMap;
 use std::collections::HashSet;
 
+use crate::generation::value::json_string;
 use crate::options::Options;
 use crate::shape::{self, Shape};
 use crate::to_singular::to_singular;
@@ -169,6 +170,15 @@ pub fn is_ts_identifier(s: &str) -> bool {
     false
 }
 
+/// The name as it is written in an object type or object literal
+pub fn property_name(name: &str) -> String {
+    if is_ts_identifier(name) {
+        name.to_string()
+    } else {
+        json_string(name)
+    }
+}
+
 fn generate_interface_type(
     ctxt: &mut Ctxt,
     path: &str,
@@ -199,13 +209,11 @@ fn generate_interface_type(
                 defs.push(code);
             }
 
-            let escape_name = !is_ts_identifier(name);
+            let property_name = property_name(name);
 
             format!(
-                "    {}{}{}{}: {};",
-                if escape_name { "\"" } else { "" },
-                name,
-                if escape_name { "\"" } else { "" },
+                "    {}{}: {};",
+                property_name,
                 if was_optional { "?" } else { "" },
                 field_type
             )
diff --git a/json_typegen_shared/src/generation/typescript_type_alias.rs b/json_typegen_shared/src/generation/typescript_type_alias.rs
index c78bcff..76dabef 100644
--- a/json_typegen_shared/src/generation/typescript_type_alias.rs
+++ b/json_typegen_shared/src/generation/typescript_type_alias.rs
@@ -1,6 +1,6 @@
 use linked_hash_map::LinkedHashMap;
 
-use crate::generation::typescript::{collapse_option, is_ts_identifier};
+use crate::generation::typescript::{collapse_option, property_name};
 use crate::options::Options;
 use crate::shape::{self, Shape, common_shape};
 
@@ -107,14 +107,12 @@ fn generate_struct_from_field_shapes(ctxt: &mut Ctxt, map: &LinkedHashMap<String
             let field_type = type_from_shape(ctxt, collapsed);
             ctxt.indent_level -= 1;
 
-            let escape_name = !is_ts_identifier(name);
+            let property_name = property_name(name);
 
             format!(
-                "{}{}{}{}{}: {};",
+                "{}{}{}: {};",
                 "    ".repeat(ctxt.indent_level),
-                if escape_name { "\"" } else { "" },
-                name,
-                if escape_name { "\"" } else { "" },
+                property_name,
                 if was_optional { "?" } else { "" },
                 field_type
             )
diff --git a/json_typegen_shared/src/generation/zod_schema.rs b/json_typegen_shared/src/generation/zod_schema.rs
index 83fcd63..74f367d 100644
--- a/json_typegen_shared/src/generation/zod_schema.rs
+++ b/json_typegen_shared/src/generation/zod_schema.rs
@@ -1,6 +1,6 @@
 use linked_hash_map::LinkedHashMap;
 
-use crate::generation::typescript::{collapse_option, is_ts_identifier};
+use crate::generation::typescript::{collapse_option, property_name};
 use crate::options::Options;
 use crate::shape::{self, Shape, common_shape};
 use crate::util::lower_camel_case;
@@ -108,14 +108,12 @@ fn generate_struct_from_field_shapes(ctxt: &mut Ctxt, map: &LinkedHashMap<String
             let field_type = type_from_shape(ctxt, typ);
             ctxt.indent_level -= 1;
 
-            let escape_name = !is_ts_identifier(name);
+            let property_name = property_name(name);
 
             format!(
-                "{}{}{}{}: {},",
+                "{}{}: {},",
                 "    ".repeat(ctxt.indent_level),
-                if escape_name { "\"" } else { "" },
-                name,
-                if escape_name { "\"" } else { "" },
+                property_name,
                 field_type
             )
         })
-- 
2.43.0


From 99619e96edccbbf5d0fdf6340deeddd9ec04d713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 36/52] fix: leave the output file alone when code generation
 fails

---
 json_typegen_cli/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index c6b2664..c36f518 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -86,6 +86,8 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
         codegen(name, &input, options)
     };
 
+    let code = code?;
+
     if let Some(filename) = matches.value_of("output") {
         let mut file = OpenOptions::new()
             .read(true)
@@ -94,9 +96,9 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
             .truncate(true)
             .open(filename)?;
 
-        file.write_all(code?.as_bytes())?;
+        file.write_all(code.as_bytes())?;
     } else {
-        print!("{}", code?);
+        print!("{}", code);
     }
 
     Ok(())
-- 
2.43.0


From 796b506f12492e8d1253ddb25f90b481ec2fecf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 37/52] fix: accept input files with names that start with
 json_typegen

---
 json_typegen_cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index c36f518..bb1ff91 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -72,7 +72,7 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
         source.to_string()
     };
 
-    let code = if input.trim().starts_with("json_typegen") {
+    let code = if input.trim().starts_with("json_typegen!") {
         codegen_from_macro(&input)
     } else {
         let name = matches.value_of("name").unwrap_or("Root");
-- 
2.43.0


From d442a7f00d0e4e10b616dbac0209af9eb4989471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:37 +0000
Subject: [PATCH 38/52] fix: accept zod as output mode on the command line

---
 json_typegen_cli/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index bb1ff91..8848be2 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -53,6 +53,7 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
                     "kotlin/kotlinx",
                     "python",
                     "json_schema",
+                    "zod",
                     "shape",
                 ])
                 .help("What to output.")
-- 
2.43.0


From ed87a03be0a45c36e2bac51ab5577e974046043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 39/52] fix: reject text after an options string in macros

---
 json_typegen_shared/src/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/parse.rs b/json_typegen_shared/src/parse.rs
index c7ac428..b6542a6 100644
--- a/json_typegen_shared/src/parse.rs
+++ b/json_typegen_shared/src/parse.rs
@@ -90,7 +90,12 @@ pub fn macro_input(input: &str) -> Result<MacroInput, String> {
     )?;
 
     let options = match string(input) {
-        IResult::Done(_, lit) => options_with_defaults(&lit.value, default_options)?,
+        IResult::Done(rem, lit) => {
+            if !rem.trim().is_empty() {
+                fail!("Expected no further tokens after options", rem)
+            }
+            options_with_defaults(&lit.value, default_options)?
+        }
         IResult::Error => options_with_defaults(input, default_options)?,
     };
 
-- 
2.43.0


From fc53394fbade649f40fb41c4109a2e561a6d776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 40/52] fix: report errors that contain quotes and hash signs
 from the macro

---
 json_typegen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen/src/lib.rs b/json_typegen/src/lib.rs
index 9f6306a..b62ff02 100644
--- a/json_typegen/src/lib.rs
+++ b/json_typegen/src/lib.rs
@@ -71,7 +71,7 @@ pub fn json_typegen(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
         Ok(code) => code,
         Err(e) => {
             let message = display_error_with_causes(&e);
-            format!(r##"compile_error!(r#"{}"#);"##, message)
+            format!("compile_error!({:?});", message)
         }
     }
     .parse()
-- 
2.43.0


From 3c692f0688f1519dc245d2857da16062ced5256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 41/52] fix: report a compile error instead of panicking on
 generated code that is not valid Rust

---
 json_typegen/src/lib.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/json_typegen/src/lib.rs b/json_typegen/src/lib.rs
index b62ff02..e3e137c 100644
--- a/json_typegen/src/lib.rs
+++ b/json_typegen/src/lib.rs
@@ -67,13 +67,15 @@ use json_typegen_shared::internal_util::display_error_with_causes;
 /// `json_typegen!(<type name>, <sample source>, <options?>)`
 #[proc_macro]
 pub fn json_typegen(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
-    match codegen_from_macro_input(&input.to_string()) {
-        Ok(code) => code,
-        Err(e) => {
-            let message = display_error_with_causes(&e);
-            format!("compile_error!({:?});", message)
-        }
-    }
-    .parse()
-    .unwrap()
+    let result = match codegen_from_macro_input(&input.to_string()) {
+        Ok(code) => code
+            .parse()
+            .map_err(|e| format!("The generated code is not valid Rust: {}", e)),
+        Err(e) => Err(display_error_with_causes(&e)),
+    };
+    result.unwrap_or_else(|message| {
+        format!("compile_error!({:?});", message)
+            .parse()
+            .unwrap()
+    })
 }
-- 
2.43.0


From 7f9332fbe8636df1e1c62cb2c756290ca1a93762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 42/52] fix: use the extension ts for downloaded Zod schemas

---
 json_typegen_web/src/lib/download.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json_typegen_web/src/lib/download.ts b/json_typegen_web/src/lib/download.ts
index 2f851d8..fdd13cb 100644
--- a/json_typegen_web/src/lib/download.ts
+++ b/json_typegen_web/src/lib/download.ts
@@ -7,6 +7,7 @@ function createFilename(typename: string, output_mode: string): string {
     "kotlin/kotlinx": "kt",
     python: "py",
     json_schema: "json",
+    zod: "ts",
     shape: "json",
   };
   return typename + "." + extensions[output_mode];
-- 
2.43.0


From d842e7aa7703329910c9c9105d04088f44a0e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 43/52] fix: do not use a file that was cleared or replaced
 while it was loading

---
 json_typegen_web/src/lib/worker.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/json_typegen_web/src/lib/worker.ts b/json_typegen_web/src/lib/worker.ts
index 38c20ff..f1862c3 100644
--- a/json_typegen_web/src/lib/worker.ts
+++ b/json_typegen_web/src/lib/worker.ts
@@ -4,6 +4,8 @@ import init, { run } from "json_typegen_wasm";
 import { readFileAsString } from "./file";
 
 let largeFileInput: string | undefined;
+// Incremented when a file is chosen or cleared, to ignore files that finish loading after that
+let fileChoice = 0;
 const postMsg: (data: WorkerMessageType) => void = postMessage;
 
 init().then(() => {
@@ -29,13 +31,18 @@ onmessage = (messageEvent) => {
       options: message.options,
     });
   } else if (message.type === WorkerMessage.LOAD_FILE) {
+    fileChoice += 1;
+    const currentChoice = fileChoice;
     readFileAsString(message.file).then((fileContent) => {
-      largeFileInput = fileContent;
+      if (currentChoice === fileChoice) {
+        largeFileInput = fileContent;
+      }
       postMsg({
         type: WorkerMessage.LOAD_FILE_COMPLETE,
       });
     });
   } else if (message.type === WorkerMessage.CLEAR_FILE) {
+    fileChoice += 1;
     largeFileInput = undefined;
   } else {
     console.warn("Unknown message to worker", messageEvent);
-- 
2.43.0


From d95175b63cf7e2339997c8bf04fe2bdc72f875ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:38 +0000
Subject: [PATCH 44/52] fix: do not use a Rust or Python type for its own
 fields

---
 json_typegen_shared/src/generation/python.rs | 6 ++++--
 json_typegen_shared/src/generation/rust.rs   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index c5fc61f..f5481f2 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -273,8 +273,6 @@ fn generate_data_class(
 
     let type_name = type_name(path, &ctxt.type_names);
     ctxt.type_names.insert(type_name.clone());
-    ctxt.created_classes
-        .push((containing_shape.clone(), type_name.clone()));
 
     let mut field_names = HashSet::new();
     let mut defs = Vec::new();
@@ -307,6 +305,10 @@ fn generate_data_class(
         })
         .collect();
 
+    // Not added until now, since a type can not be used for its own fields
+    ctxt.created_classes
+        .push((containing_shape.clone(), type_name.clone()));
+
     let mut code = String::new();
 
     code += &format!(
diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index a944563..fa8461c 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -253,8 +253,6 @@ fn generate_struct_type(
 
     let type_name = type_name(path, &ctxt.type_names);
     ctxt.type_names.insert(type_name.clone());
-    ctxt.created_structs
-        .push((containing_shape.clone(), type_name.clone()));
 
     let visibility = ctxt.options.type_visibility.clone();
     let field_visibility = match ctxt.options.field_visibility {
@@ -305,6 +303,10 @@ fn generate_struct_type(
         })
         .collect();
 
+    // Not added until now, since a type can not be used for its own fields
+    ctxt.created_structs
+        .push((containing_shape.clone(), type_name.clone()));
+
     let mut code = format!("#[derive({})]\n", ctxt.options.derives);
 
     if ctxt.options.deny_unknown_fields {
-- 
2.43.0


From 389d01f74d46e22b7df5ee07e7afc0cdc94dc4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:57 +0000
Subject: [PATCH 45/52] fix: do not generate a second property named
 additionalFields in Kotlin

---
 json_typegen_shared/src/generation/kotlin.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index 508ac5b..fd74881 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -244,6 +244,9 @@ fn generate_data_class(
         .push((containing_shape.clone(), type_name.clone()));
 
     let mut field_names = HashSet::new();
+    if ctxt.options.collect_additional {
+        field_names.insert("additionalFields".to_string());
+    }
     let mut defs = Vec::new();
 
     let fields: Vec<Code> = field_shapes
-- 
2.43.0


From 9b6a09c49498bdee30d94ecabcd82ed466439c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:47 +0000
Subject: [PATCH 46/52] fix: describe infer_map_threshold as it is applied

---
 json_typegen_web/src/App.svelte | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_web/src/App.svelte b/json_typegen_web/src/App.svelte
index d19b1dd..2865931 100644
--- a/json_typegen_web/src/App.svelte
+++ b/json_typegen_web/src/App.svelte
@@ -379,7 +379,7 @@
             <FormField
                 id="infermapthreshold"
                 label="Infer map threshold"
-                helpText={"If the number of keys in a map is less than this threshold, the map will be inferred as a struct. " +
+                helpText={"If the number of keys in a map is at most this threshold, the map will be inferred as a struct. " +
                     "Otherwise, it will be inferred as a map. " +
                     "If blank, structs will always be used."}
             >
-- 
2.43.0


From 19cbbf2b9947830baecbbec23151714d5d3c0047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:47 +0000
Subject: [PATCH 47/52] fix: use an empty file that was loaded as the input of
 the web worker

---
 json_typegen_web/src/lib/worker.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_web/src/lib/worker.ts b/json_typegen_web/src/lib/worker.ts
index f1862c3..91b96ca 100644
--- a/json_typegen_web/src/lib/worker.ts
+++ b/json_typegen_web/src/lib/worker.ts
@@ -18,7 +18,7 @@ onmessage = (messageEvent) => {
   const message: WorkerMessageType = messageEvent.data;
 
   if (message.type === WorkerMessage.CODEGEN) {
-    const input = largeFileInput || message.input;
+    const input = largeFileInput ?? message.input;
     const result = run(
       message.typename,
       input,
-- 
2.43.0


From 3b95dbec771dac8edb0b5ba0b7d1343f48b1291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:55 +0000
Subject: [PATCH 48/52] fix: stop using a large file when another input is
 chosen on the web page

---
 json_typegen_web/src/App.svelte | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json_typegen_web/src/App.svelte b/json_typegen_web/src/App.svelte
index 2865931..2c27aa2 100644
--- a/json_typegen_web/src/App.svelte
+++ b/json_typegen_web/src/App.svelte
@@ -151,6 +151,7 @@
     }
 
     const loadExample = (example: Example) => {
+        clearFile();
         input = example.json;
         typeName = example.typeName;
         propertyNameFormat = example.propertyNameFormat || "";
@@ -174,6 +175,7 @@
             });
             workerReady = false;
         } else {
+            clearFile();
             readFileAsString(file).then((contents: string) => {
                 input = contents;
             });
-- 
2.43.0


From 2d8c7b4031152b4e43cfeedc6f10aa5a685db85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:57 +0000
Subject: [PATCH 49/52] fix: update the output when the input file is cleared
 on the web page

---
 json_typegen_web/src/App.svelte | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json_typegen_web/src/App.svelte b/json_typegen_web/src/App.svelte
index 2c27aa2..9192648 100644
--- a/json_typegen_web/src/App.svelte
+++ b/json_typegen_web/src/App.svelte
@@ -189,6 +189,8 @@
         worker.postMessage({
             type: WorkerMessage.CLEAR_FILE,
         });
+        // The input may be unchanged, while the output was for the file
+        render();
     };
 
     const formatInput = () => {
-- 
2.43.0


From ad80895b989cf64322274876f2fc6b883fdd6c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:59 +0000
Subject: [PATCH 50/52] fix: ignore an input file that finishes loading after
 another input was chosen

---
 json_typegen_web/src/App.svelte | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/json_typegen_web/src/App.svelte b/json_typegen_web/src/App.svelte
index 9192648..15b158b 100644
--- a/json_typegen_web/src/App.svelte
+++ b/json_typegen_web/src/App.svelte
@@ -158,12 +158,15 @@
     };
 
     let filename = "";
+    // Incremented when another input is chosen, to ignore files that finish loading after that
+    let inputChoice = 0;
     const loadFile = (event: Event) => {
         const file = (event.target as HTMLInputElement).files?.[0];
         if (!file) {
             return;
         }
         filename = file.name;
+        inputChoice += 1;
         if (file.size > 500_000) {
             input = "";
             isLoadingLargeFile = true;
@@ -176,13 +179,17 @@
             workerReady = false;
         } else {
             clearFile();
+            const currentChoice = inputChoice;
             readFileAsString(file).then((contents: string) => {
-                input = contents;
+                if (currentChoice === inputChoice) {
+                    input = contents;
+                }
             });
         }
     };
 
     const clearFile = () => {
+        inputChoice += 1;
         input = "";
         largeFileMessage = null;
         isLoadingLargeFile = false;
-- 
2.43.0


From 56dc8370e5dc1c3bfe46416f07c060d4eed5e1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:11 +0000
Subject: [PATCH 51/52] fix: answer the web page when a file can not be read,
 so that it does not wait forever

---
 json_typegen_web/src/lib/worker.ts | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/json_typegen_web/src/lib/worker.ts b/json_typegen_web/src/lib/worker.ts
index 91b96ca..9bd9fa2 100644
--- a/json_typegen_web/src/lib/worker.ts
+++ b/json_typegen_web/src/lib/worker.ts
@@ -33,14 +33,20 @@ onmessage = (messageEvent) => {
   } else if (message.type === WorkerMessage.LOAD_FILE) {
     fileChoice += 1;
     const currentChoice = fileChoice;
-    readFileAsString(message.file).then((fileContent) => {
-      if (currentChoice === fileChoice) {
-        largeFileInput = fileContent;
-      }
-      postMsg({
-        type: WorkerMessage.LOAD_FILE_COMPLETE,
+    readFileAsString(message.file)
+      .then((fileContent) => {
+        if (currentChoice === fileChoice) {
+          largeFileInput = fileContent;
+        }
+      })
+      .catch((error) => {
+        console.warn("Could not read file", error);
+      })
+      .then(() => {
+        postMsg({
+          type: WorkerMessage.LOAD_FILE_COMPLETE,
+        });
       });
-    });
   } else if (message.type === WorkerMessage.CLEAR_FILE) {
     fileChoice += 1;
     largeFileInput = undefined;
-- 
2.43.0


From c4fa6e2b22810d6c03cefb089cfaefe751de2c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:36 +0000
Subject: [PATCH 52/52] fix: generate separate types for a tuple and for a
 tuple whose elements fold to a different list

---
 json_typegen_shared/src/shape.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index 041d41d..d7722a5 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -151,6 +151,8 @@ impl Shape {
                     && a.iter()
                         .zip(b.iter())
                         .all(|(e1, e2)| e1.is_acceptable_substitution_for(e2))
+                    // Tuples whose elements have a common shape are generated as lists
+                    && fold_shapes(a.clone()).is_acceptable_substitution_for(&fold_shapes(b.clone()))
             }
             (Struct { fields: f1 }, Struct { fields: f2 }) => {
                 // Require all fields to be the same (but ignore order)
-- 
2.43.0

