From 06a444e944b4a6d5a2c00df78adc888b5a14557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:36 +0000
Subject: [PATCH 01/38] fix: honour the sign, separators and hex format of
 float defaults

---
 .../src/intermediate_language/translation.rs  | 56 +++++++++++++++----
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 48d0049..e4ddd68 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -51,6 +51,23 @@ fn default_docstring_for_namespace(path: &AbsolutePath) -> String {
     }
 }
 
+/// Parses the part after the `0x` prefix of a hexadecimal floating point (or integer) literal.
+fn parse_hex_float(v: &str) -> Option<f64> {
+    let (mantissa, exponent) = match v.split_once(['p', 'P']) {
+        Some((mantissa, exponent)) => (mantissa, exponent.parse::<i32>().ok()?),
+        None => (v, 0),
+    };
+    let (integer, fraction) = mantissa.split_once('.').unwrap_or((mantissa, ""));
+    let mut result = 0.0f64;
+    let mut seen_digit = false;
+    for digit in integer.chars().chain(fraction.chars()) {
+        result = result * 16.0 + f64::from(digit.to_digit(16)?);
+        seen_digit = true;
+    }
+    let exponent = exponent.checked_sub(4 * i32::try_from(fraction.len()).ok()?)?;
+    seen_digit.then(|| result * 2.0f64.powi(exponent))
+}
+
 impl<'a> Translator<'a> {
     pub fn new(ctx: &'a Ctx, reachability: SortedMap<FileId, SortedSet<FileId>>) -> Self {
         Self {
@@ -363,18 +380,37 @@ impl<'a> Translator<'a> {
 
     fn translate_float(
         &self,
-        _span: Span,
-        _is_negative: bool,
+        file_id: FileId,
+        span: Span,
+        is_negative: bool,
         v: &str,
         type_: &ast::FloatType,
     ) -> Option<FloatLiteral> {
-        use FloatLiteral::*;
-
-        // TODO error messages
-        // TODO: hex parsing and other formats
-        Some(match type_ {
-            ast::FloatType::F32 => F32(v.parse().unwrap()),
-            ast::FloatType::F64 => F64(v.parse().unwrap()),
+        // Integer literals are allowed to use underscores as separators
+        let v = v.replace('_', "");
+        let literal = if v.starts_with("0x") || v.starts_with("0X") {
+            parse_hex_float(&v[2..]).map(|value| match type_ {
+                ast::FloatType::F32 => FloatLiteral::F32(value as f32),
+                ast::FloatType::F64 => FloatLiteral::F64(value),
+            })
+        } else {
+            match type_ {
+                ast::FloatType::F32 => v.parse().ok().map(FloatLiteral::F32),
+                ast::FloatType::F64 => v.parse().ok().map(FloatLiteral::F64),
+            }
+        };
+        let Some(literal) = literal else {
+            self.ctx.emit_error(
+                ErrorKind::MISC_SEMANTIC_ERROR,
+                [Label::primary(file_id, span)],
+                Some("Invalid floating point literal"),
+            );
+            return None;
+        };
+        Some(match literal {
+            FloatLiteral::F32(value) if is_negative => FloatLiteral::F32(-value),
+            FloatLiteral::F64(value) if is_negative => FloatLiteral::F64(-value),
+            literal => literal,
         })
     }
 
@@ -439,7 +475,7 @@ impl<'a> Translator<'a> {
                 | LiteralKind::Integer { is_negative, value },
                 SimpleType(Float(type_)),
             ) => self
-                .translate_float(literal.span, *is_negative, value, type_)
+                .translate_float(current_file_id, literal.span, *is_negative, value, type_)
                 .map(Literal::Float),
             (LiteralKind::String(s), String) => Some(Literal::String(s.clone())),
             (LiteralKind::List(literals), Vector(type_)) => {
-- 
2.43.0


From 11af3c8b6017abd56816b25970ea3003bc68ddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:36 +0000
Subject: [PATCH 02/38] fix: accept digit separators in integer literals
 instead of dropping the item

---
 .../src/intermediate_language/translation.rs         | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index e4ddd68..68be3a2 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -339,8 +339,10 @@ impl<'a> Translator<'a> {
         }
         let base_t = T::from(base).unwrap();
         let mut result = T::from(0u8).unwrap();
+        let mut seen_digit = false;
         for c in v {
             let cur = match c {
+                b'_' => continue,
                 b'0'..=b'9' => c - b'0',
                 b'a'..=b'f' if base == 16 => c - b'a' + 0xa,
                 b'A'..=b'F' if base == 16 => c - b'A' + 0xa,
@@ -350,6 +352,7 @@ impl<'a> Translator<'a> {
                     return None;
                 }
             };
+            seen_digit = true;
 
             match result.checked_mul(&base_t).and_then(|v| {
                 if is_negative {
@@ -375,6 +378,15 @@ impl<'a> Translator<'a> {
             }
         }
 
+        if !seen_digit {
+            self.ctx.emit_error(
+                ErrorKind::NUMERICAL_RANGE_ERROR,
+                [Label::primary(file_id, span)],
+                Some("Integer literal contains no digits"),
+            );
+            return None;
+        }
+
         Some(result)
     }
 
-- 
2.43.0


From 96c2d9c313740c63eedf72d382bdc54130a78911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:37 +0000
Subject: [PATCH 03/38] fix: report out of range field ids instead of
 overflowing

---
 .../src/intermediate_language/translation.rs  | 38 ++++++++++++++++---
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 68be3a2..b44736c 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -68,6 +68,9 @@ fn parse_hex_float(v: &str) -> Option<f64> {
     seen_digit.then(|| result * 2.0f64.powi(exponent))
 }
 
+// The size of the vtable is stored in a `u16` and includes 4 bytes of header
+const MAX_VTABLE_INDEX: u32 = (u16::MAX as u32 - 4) / 2 - 1;
+
 impl<'a> Translator<'a> {
     pub fn new(ctx: &'a Ctx, reachability: SortedMap<FileId, SortedSet<FileId>>) -> Self {
         Self {
@@ -945,12 +948,27 @@ impl<'a> Translator<'a> {
                     value,
                     is_negative,
                 }) => {
-                    if let Some(new_index) = self.translate_integer_generic::<u32>(
-                        current_file_id,
-                        *span,
-                        *is_negative,
-                        value,
-                    ) {
+                    let new_index = self
+                        .translate_integer_generic::<u32>(
+                            current_file_id,
+                            *span,
+                            *is_negative,
+                            value,
+                        )
+                        .filter(|new_index| {
+                            let in_range = *new_index <= MAX_VTABLE_INDEX;
+                            if !in_range {
+                                self.ctx.emit_error(
+                                    ErrorKind::NUMERICAL_RANGE_ERROR,
+                                    [Label::primary(current_file_id, *span)],
+                                    Some(&format!(
+                                        "Id is out of range (range is [0; {MAX_VTABLE_INDEX}])",
+                                    )),
+                                );
+                            }
+                            in_range
+                        });
+                    if let Some(new_index) = new_index {
                         if type_.kind.is_type_with_tag() {
                             if new_index > 0 {
                                 // The specification says that the id assignment for unions specifies the second
@@ -1179,6 +1197,14 @@ impl<'a> Translator<'a> {
             }
         }
 
+        if next_vtable_index > MAX_VTABLE_INDEX + 1 && !has_id_error {
+            self.ctx.emit_error(
+                ErrorKind::NUMERICAL_RANGE_ERROR,
+                [Label::primary(current_file_id, definition_span)],
+                Some("Table contains more fields than a vtable has room for"),
+            );
+        }
+
         let mut next_expected_id = 0;
         for &key in seen_vtable_ids.keys() {
             if key != next_expected_id {
-- 
2.43.0


From 41366635893a2ef49153af41188c3e130510a94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:38 +0000
Subject: [PATCH 04/38] fix: report implicit enum values that overflow instead
 of wrapping around

---
 .../src/intermediate_language/translation.rs  | 22 +++++++++++++------
 crates/planus-types/src/intermediate.rs       | 15 +++++++++++++
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index b44736c..aeb6778 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1249,11 +1249,10 @@ impl<'a> Translator<'a> {
         }
 
         let mut variants: IndexMap<IntegerLiteral, EnumVariant> = IndexMap::new();
-        let mut next_value = IntegerLiteral::default_value_from_type(&decl.type_);
+        let mut next_value = Some(IntegerLiteral::default_value_from_type(&decl.type_));
         for (ident, variant) in decl.variants.iter() {
-            let mut value = next_value;
             let name = self.ctx.resolve_identifier(*ident);
-            if let Some(assignment) = &variant.value {
+            let value = if let Some(assignment) = &variant.value {
                 if let Some(v) = self.translate_integer(
                     current_file_id,
                     assignment.span,
@@ -1261,11 +1260,20 @@ impl<'a> Translator<'a> {
                     &assignment.value,
                     &decl.type_,
                 ) {
-                    value = v;
+                    v
                 } else {
                     continue;
-                };
-            }
+                }
+            } else if let Some(next_value) = next_value {
+                next_value
+            } else {
+                self.ctx.emit_error(
+                    ErrorKind::NUMERICAL_RANGE_ERROR,
+                    [Label::primary(current_file_id, variant.span)],
+                    Some("The implicit value of this variant is out of range for the enum"),
+                );
+                continue;
+            };
             match variants.entry(value) {
                 Entry::Occupied(entry) => {
                     self.ctx.emit_error(
@@ -1289,7 +1297,7 @@ impl<'a> Translator<'a> {
                     });
                 }
             }
-            next_value = value.next();
+            next_value = value.checked_next();
         }
         Enum {
             variants,
diff --git a/crates/planus-types/src/intermediate.rs b/crates/planus-types/src/intermediate.rs
index c59eb5b..598a3a9 100644
--- a/crates/planus-types/src/intermediate.rs
+++ b/crates/planus-types/src/intermediate.rs
@@ -611,6 +611,21 @@ impl IntegerLiteral {
         }
     }
 
+    /// Same as [`Self::next`], but returns `None` instead of wrapping around.
+    #[must_use]
+    pub fn checked_next(&self) -> Option<Self> {
+        Some(match self {
+            Self::U8(n) => Self::U8(n.checked_add(1)?),
+            Self::I8(n) => Self::I8(n.checked_add(1)?),
+            Self::U16(n) => Self::U16(n.checked_add(1)?),
+            Self::I16(n) => Self::I16(n.checked_add(1)?),
+            Self::U32(n) => Self::U32(n.checked_add(1)?),
+            Self::I32(n) => Self::I32(n.checked_add(1)?),
+            Self::U64(n) => Self::U64(n.checked_add(1)?),
+            Self::I64(n) => Self::I64(n.checked_add(1)?),
+        })
+    }
+
     #[must_use]
     pub fn next(&self) -> Self {
         match self {
-- 
2.43.0


From 6bdb842babc559535a1e90e4f354295df2f4782f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 05/38] fix: report duplicate and too many union variants
 instead of miscompiling

---
 .../src/intermediate_language/translation.rs  | 94 +++++++++++++------
 1 file changed, 64 insertions(+), 30 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index aeb6778..b2f49a1 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -733,7 +733,7 @@ impl<'a> Translator<'a> {
                     _ => unreachable!(),
                 },
                 ast::TypeDeclarationKind::Union(decl) => DeclarationKind::Union(
-                    self.translate_union(current_namespace, current_file_id, decl),
+                    self.translate_union(current_namespace, current_file_id, definition_span, decl),
                 ),
                 ast::TypeDeclarationKind::RpcService(decl) => DeclarationKind::RpcService(
                     self.translate_rpc_service(current_namespace, current_file_id, decl),
@@ -1310,6 +1310,7 @@ impl<'a> Translator<'a> {
         &self,
         current_namespace: &AbsolutePath,
         current_file_id: FileId,
+        definition_span: Span,
         decl: &ast::Union,
     ) -> Union {
         for m in &decl.metadata.values {
@@ -1321,39 +1322,72 @@ impl<'a> Translator<'a> {
             );
         }
 
-        let variants = decl
-            .variants
-            .values()
-            .filter_map(|variant| {
-                let type_ =
-                    self.translate_type(current_namespace, current_file_id, &variant.type_)?;
-                self.check_valid_union_variant_type(
-                    current_file_id,
-                    &type_,
-                    variant.ident.is_some(),
-                );
+        // Variants without names are named after the last part of their type, unless
+        // that is ambiguous.
+        let short_name = |variant: &ast::UnionVariant| match (&variant.ident, &variant.type_.kind) {
+            (Some(ident), _) => Some(ident.value),
+            (None, ast::TypeKind::Path(path)) => path.parts.last().copied(),
+            (None, _) => None,
+        };
 
-                let name = if let Some(ident) = variant.ident {
-                    self.ctx.resolve_identifier(ident.value)
-                } else {
-                    // TODO: make sure this is unique
-                    match &variant.type_.kind {
-                        ast::TypeKind::Path(p) => {
-                            self.ctx.resolve_identifier(*p.parts.last().unwrap())
-                        }
-                        _ => String::default(),
-                    }
-                };
+        let mut variants: IndexMap<String, UnionVariant> = IndexMap::new();
+        for variant in decl.variants.values() {
+            let Some(type_) =
+                self.translate_type(current_namespace, current_file_id, &variant.type_)
+            else {
+                continue;
+            };
+            self.check_valid_union_variant_type(current_file_id, &type_, variant.ident.is_some());
 
-                Some((
-                    name,
-                    UnionVariant {
+            let Some(name) = short_name(variant) else {
+                // Only types that are not allowed in unions do not have a name
+                continue;
+            };
+            let is_ambiguous = decl
+                .variants
+                .values()
+                .filter(|other| short_name(other) == Some(name))
+                .nth(1)
+                .is_some();
+            let name = match &variant.type_.kind {
+                ast::TypeKind::Path(path) if variant.ident.is_none() && is_ambiguous => path
+                    .parts
+                    .iter()
+                    .map(|part| self.ctx.resolve_identifier(*part))
+                    .collect::<Vec<_>>()
+                    .join("_"),
+                _ => self.ctx.resolve_identifier(name),
+            };
+
+            match variants.entry(name) {
+                Entry::Occupied(entry) => self.ctx.emit_error(
+                    ErrorKind::MISC_SEMANTIC_ERROR,
+                    [
+                        Label::primary(current_file_id, entry.get().type_.span)
+                            .with_message("First variant was here"),
+                        Label::primary(current_file_id, variant.type_.span)
+                            .with_message("Second variant was here"),
+                    ],
+                    Some(&format!(
+                        "Union uses the name {} for multiple variants",
+                        entry.key()
+                    )),
+                ),
+                Entry::Vacant(entry) => {
+                    entry.insert(UnionVariant {
                         type_,
                         docstrings: variant.docstrings.clone(),
-                    },
-                ))
-            })
-            .collect();
+                    });
+                }
+            }
+        }
+        if variants.len() > usize::from(u8::MAX) {
+            self.ctx.emit_error(
+                ErrorKind::NUMERICAL_RANGE_ERROR,
+                [Label::primary(current_file_id, definition_span)],
+                Some("Unions can have at most 255 variants"),
+            );
+        }
         Union { variants }
     }
 
-- 
2.43.0


From 8a9665b42769ef71564d19224bd94ecc0c033e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:40 +0000
Subject: [PATCH 06/38] fix: keep type descriptions aligned when a duplicate
 declaration is rejected

---
 .../src/intermediate_language/translation.rs                | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index b2f49a1..b036142 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -108,6 +108,7 @@ impl<'a> Translator<'a> {
             .extend(schema.docstrings.locations.iter().cloned());
         namespace.docstrings.default_docstring = default_docstring_for_namespace(&namespace_path);
 
+        let mut new_declarations = Vec::new();
         for decl in schema.type_declarations.values() {
             let name = self.ctx.resolve_identifier(decl.identifier.value);
             match self
@@ -132,10 +133,13 @@ impl<'a> Translator<'a> {
                         .declaration_ids
                         .insert(name, DeclarationIndex(entry.index()));
                     entry.insert(decl.clone());
+                    new_declarations.push(decl);
                 }
             }
         }
-        for decl in schema.type_declarations.values() {
+        // The descriptions are indexed in the same way as the declarations, so skip the
+        // declarations that were rejected above
+        for decl in new_declarations {
             self.descriptions.push(match &decl.kind {
                 ast::TypeDeclarationKind::Table(_) => TypeDescription::Table,
                 ast::TypeDeclarationKind::Struct(_) => TypeDescription::Struct {
-- 
2.43.0


From 2e300d28b694d30e74fd062d4ee428532a029f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:40 +0000
Subject: [PATCH 07/38] fix: report structs whose size overflows instead of
 panicking

---
 .../src/intermediate_language/translation.rs  | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index b036142..16ce055 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1470,11 +1470,28 @@ impl<'a> Translator<'a> {
             }};
         }
 
-        fn round_up(value: u32, alignment: u32) -> u32 {
-            value.div_ceil(alignment) * alignment
+        fn round_up(value: u32, alignment: u32) -> Option<u32> {
+            value.checked_next_multiple_of(alignment)
         }
 
-        let mut offset = 0;
+        macro_rules! check_size {
+            ($size:expr) => {
+                if let Some(size) = $size {
+                    size
+                } else {
+                    let (ast_decl, _ast_kind) = get_ast_decl!();
+                    self.ctx.emit_error(
+                        ErrorKind::NUMERICAL_RANGE_ERROR,
+                        [Label::primary(ast_decl.file_id, ast_decl.definition_span)],
+                        Some("The size of this struct is out of range"),
+                    );
+                    parents.pop();
+                    return None;
+                }
+            };
+        }
+
+        let mut offset = 0u32;
         let mut max_alignment = 1;
         let mut max_alignment_span = None;
         for field_id in 0..get_struct_decl!().fields.len() {
@@ -1503,7 +1520,7 @@ impl<'a> Translator<'a> {
             };
 
             let (_ast_decl, ast_kind) = get_ast_decl!();
-            offset = round_up(offset, cur_alignment);
+            offset = check_size!(round_up(offset, cur_alignment));
             let decl = get_struct_decl!();
             decl.fields[field_id].offset = offset;
             decl.fields[field_id].size = cur_size;
@@ -1511,7 +1528,7 @@ impl<'a> Translator<'a> {
                 decl.fields[field_id - 1].padding_after_field =
                     offset - decl.fields[field_id - 1].offset - decl.fields[field_id - 1].size;
             }
-            offset += cur_size;
+            offset = check_size!(offset.checked_add(cur_size));
             if max_alignment_span.is_none() || max_alignment < cur_alignment {
                 max_alignment_span = Some(ast_kind.fields[field_id].type_.span);
                 max_alignment = cur_alignment;
@@ -1544,7 +1561,7 @@ impl<'a> Translator<'a> {
             }
         }
 
-        offset = round_up(offset, max_alignment);
+        offset = check_size!(round_up(offset, max_alignment));
         let decl = get_struct_decl!();
         if let Some((_, last_field)) = decl.fields.last_mut() {
             last_field.padding_after_field = offset - last_field.offset - last_field.size;
-- 
2.43.0


From 8aebea8471eb0a95e988f234b389613416b4e1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:45 +0000
Subject: [PATCH 08/38] fix: generate valid code for non-finite float defaults

---
 crates/planus-codegen/src/rust/mod.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index bc91782..27ec025 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -10,7 +10,9 @@ use eyre::Context;
 use heck::{ToSnakeCase, ToUpperCamelCase};
 use planus_types::{
     ast::{FloatType, IntegerType},
-    intermediate::{self, AbsolutePath, AssignMode, DeclarationIndex, Literal, TableFieldTagKind},
+    intermediate::{
+        self, AbsolutePath, AssignMode, DeclarationIndex, FloatLiteral, Literal, TableFieldTagKind,
+    },
 };
 
 use super::backend::{
@@ -863,8 +865,9 @@ impl Backend for RustBackend {
                         read_type = vtable_type.clone();
                         owned_type = vtable_type.clone();
                         create_trait = format!("WriteAsDefault<{owned_type}, {owned_type}>");
-                        impl_default_code = format!("{lit}").into();
+                        let lit = format_float_literal(lit);
                         serialize_default = Some(format!("&{lit}").into());
+                        impl_default_code = lit.into();
                         deserialize_default = Some(impl_default_code.clone());
                     }
                     AssignMode::Optional => {
@@ -1045,6 +1048,23 @@ fn float_type(type_: &FloatType) -> &'static str {
     }
 }
 
+fn format_float_literal(literal: &FloatLiteral) -> String {
+    let (type_, value) = match literal {
+        FloatLiteral::F32(value) => ("f32", f64::from(*value)),
+        FloatLiteral::F64(value) => ("f64", *value),
+    };
+    if value.is_nan() {
+        let sign = if value.is_sign_negative() { "-" } else { "" };
+        format!("{sign}::core::primitive::{type_}::NAN")
+    } else if value == f64::INFINITY {
+        format!("::core::primitive::{type_}::INFINITY")
+    } else if value == f64::NEG_INFINITY {
+        format!("::core::primitive::{type_}::NEG_INFINITY")
+    } else {
+        literal.to_string()
+    }
+}
+
 pub fn format_string(s: &str, max_width: Option<u64>) -> eyre::Result<String> {
     // Probe rustfmt up front so a missing binary yields a clear error.
     let version_status = Command::new("rustfmt")
-- 
2.43.0


From a54f5add2ce087a23ca4fba2ae314fc505c96db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:46 +0000
Subject: [PATCH 09/38] fix: reserve generated type names per namespace to
 avoid collisions

---
 crates/planus-codegen/src/backend.rs             |  2 +-
 crates/planus-codegen/src/backend_translation.rs | 12 ++++++------
 crates/planus-codegen/src/rust/mod.rs            |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/planus-codegen/src/backend.rs b/crates/planus-codegen/src/backend.rs
index b30dae7..becda27 100644
--- a/crates/planus-codegen/src/backend.rs
+++ b/crates/planus-codegen/src/backend.rs
@@ -21,7 +21,7 @@ pub struct NamespaceNames<'a, 'keywords> {
 
 pub struct DeclarationNames<'a, 'keywords> {
     pub _global_names: &'a mut Names<'keywords>,
-    pub _namespace_names: &'a mut Names<'keywords>,
+    pub namespace_names: &'a mut Names<'keywords>,
     pub declaration_names: &'a mut Names<'keywords>,
 }
 
diff --git a/crates/planus-codegen/src/backend_translation.rs b/crates/planus-codegen/src/backend_translation.rs
index bd36a66..e2316d9 100644
--- a/crates/planus-codegen/src/backend_translation.rs
+++ b/crates/planus-codegen/src/backend_translation.rs
@@ -442,7 +442,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_table(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -456,7 +456,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_struct(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -470,7 +470,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_enum(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -484,7 +484,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_union(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -528,7 +528,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                                 &mut DeclarationTranslationContext {
                                     declaration_names: DeclarationNames {
                                         _global_names: global_names,
-                                        _namespace_names: namespace_names,
+                                        namespace_names,
                                         declaration_names,
                                     },
                                     translated_namespaces: &translated_namespaces,
@@ -557,7 +557,7 @@ pub fn run_backend<B: ?Sized + Backend>(
         let mut translation_context = DeclarationTranslationContext {
             declaration_names: DeclarationNames {
                 _global_names: global_names,
-                _namespace_names: namespace_names,
+                namespace_names,
                 declaration_names,
             },
             translated_namespaces: &translated_namespaces,
diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index 27ec025..f1f924f 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -132,7 +132,7 @@ fn reserve_module_name(path: &str, namespace_names: &mut NamespaceNames<'_, '_>)
 fn reserve_type_name(path: &str, declaration_names: &mut DeclarationNames<'_, '_>) -> String {
     let name = path.to_upper_camel_case().into();
     declaration_names
-        .declaration_names
+        .namespace_names
         .try_reserve_repeat(BINDING_KIND_TYPES, name, '_')
         .into()
 }
-- 
2.43.0


From b1e5531551ebd8c250dde7d02ca0654a379d12fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:47 +0000
Subject: [PATCH 10/38] fix: do not generate identifiers that start with a
 digit

---
 crates/planus-codegen/src/rust/mod.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index f1f924f..179c3c1 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -121,8 +121,17 @@ pub struct RpcMethod {}
 
 const BINDING_KIND_TYPES: &str = "types";
 
+/// Removing underscores can leave an identifier that starts with a digit
+fn fix_leading_digit(name: String) -> String {
+    if name.starts_with(|c: char| c.is_ascii_digit()) {
+        format!("_{name}")
+    } else {
+        name
+    }
+}
+
 fn reserve_module_name(path: &str, namespace_names: &mut NamespaceNames<'_, '_>) -> String {
-    let name = path.to_snake_case().into();
+    let name = fix_leading_digit(path.to_snake_case()).into();
     namespace_names
         .namespace_names
         .try_reserve_repeat(BINDING_KIND_TYPES, name, '_')
@@ -130,7 +139,7 @@ fn reserve_module_name(path: &str, namespace_names: &mut NamespaceNames<'_, '_>)
 }
 
 fn reserve_type_name(path: &str, declaration_names: &mut DeclarationNames<'_, '_>) -> String {
-    let name = path.to_upper_camel_case().into();
+    let name = fix_leading_digit(path.to_upper_camel_case()).into();
     declaration_names
         .namespace_names
         .try_reserve_repeat(BINDING_KIND_TYPES, name, '_')
@@ -142,7 +151,7 @@ fn reserve_field_name(
     binding_kind: &'static str,
     declaration_names: &mut DeclarationNames<'_, '_>,
 ) -> String {
-    let name = path.to_snake_case().into();
+    let name = fix_leading_digit(path.to_snake_case()).into();
     declaration_names
         .declaration_names
         .try_reserve_repeat(binding_kind, name, '_')
@@ -154,7 +163,7 @@ fn reserve_rust_enum_variant_name(
     binding_kind: &'static str,
     declaration_names: &mut DeclarationNames<'_, '_>,
 ) -> String {
-    let name = path.to_upper_camel_case().into();
+    let name = fix_leading_digit(path.to_upper_camel_case()).into();
     declaration_names
         .declaration_names
         .try_reserve_repeat(binding_kind, name, '_')
@@ -380,7 +389,7 @@ impl Backend for RustBackend {
             "name",
             &mut translation_context.declaration_names,
         );
-        let mut name_with_as = format!("{field_name}_as").to_snake_case();
+        let mut name_with_as = fix_leading_digit(format!("{field_name}_as").to_snake_case());
         if name_with_as == "as" {
             name_with_as = format!("{field_name}_as");
         }
-- 
2.43.0


From d80bff284a5af6c7bfcefda95e6a86893c49a5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:48 +0000
Subject: [PATCH 11/38] fix: align the elements when writing arrays as vectors

---
 crates/planus/src/impls/array.rs | 30 ++----------------------------
 1 file changed, 2 insertions(+), 28 deletions(-)

diff --git a/crates/planus/src/impls/array.rs b/crates/planus/src/impls/array.rs
index 49d3024..5a7f89c 100644
--- a/crates/planus/src/impls/array.rs
+++ b/crates/planus/src/impls/array.rs
@@ -1,6 +1,4 @@
-use core::mem::MaybeUninit;
-
-use crate::{builder::Builder, traits::*, Cursor, Offset, UnionVectorOffset};
+use crate::{builder::Builder, traits::*, Offset, UnionVectorOffset};
 
 impl<T, P, const N: usize> WriteAsOffset<[P]> for [T; N]
 where
@@ -8,31 +6,7 @@ where
     T: VectorWrite<P>,
 {
     fn prepare(&self, builder: &mut Builder) -> Offset<[P]> {
-        let mut tmp: [MaybeUninit<T::Value>; N] = unsafe { MaybeUninit::uninit().assume_init() };
-        for (t, v) in tmp.iter_mut().zip(self.iter()) {
-            t.write(v.prepare(builder));
-        }
-        // TODO: replace with std::mem::MaybeUninit::array_assume_init when it becomes stable
-        //       https://github.com/rust-lang/rust/issues/80908
-        let tmp =
-            unsafe { (&tmp as *const [MaybeUninit<T::Value>; N] as *const [T::Value; N]).read() };
-        unsafe {
-            builder.write_with(
-                4 + T::STRIDE.checked_mul(self.len()).unwrap(),
-                P::ALIGNMENT_MASK.max(3),
-                |buffer_position, bytes| {
-                    let bytes = bytes.as_mut_ptr();
-
-                    (self.len() as u32).write(
-                        Cursor::new(&mut *(bytes as *mut [MaybeUninit<u8>; 4])),
-                        buffer_position,
-                    );
-
-                    T::write_values(&tmp, bytes.add(4), buffer_position - 4);
-                },
-            )
-        };
-        builder.current_offset()
+        WriteAsOffset::prepare(self.as_slice(), builder)
     }
 }
 
-- 
2.43.0


From 381ef861d23e4143f334e851195e260ae9634387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:48 +0000
Subject: [PATCH 12/38] fix: return an error instead of panicking on a
 half-present union vector

---
 crates/planus/src/table_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/planus/src/table_reader.rs b/crates/planus/src/table_reader.rs
index 981ca94..6da41df 100644
--- a/crates/planus/src/table_reader.rs
+++ b/crates/planus/src/table_reader.rs
@@ -163,7 +163,7 @@ impl<'buf> Table<'buf> {
             let values_offset = u16::from_le_bytes(offset[2..].try_into().unwrap()) as usize;
             match (tags_offset, values_offset) {
                 (0, 0) => Ok(None),
-                (0, _) | (_, 0) => todo!(),
+                (0, _) | (_, 0) => Err(make_error(ErrorKind::InvalidOffset)),
                 (tags_offset, values_offset) => Ok(Some(
                     T::from_buffer(self.object, tags_offset, values_offset).map_err(make_error)?,
                 )),
-- 
2.43.0


From c0748fc468e9d6603377b5ee61b8157436fbb040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:49 +0000
Subject: [PATCH 13/38] fix: correct a debug assertion on the length of union
 tag vectors

---
 crates/planus/src/union_vectors/union_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/planus/src/union_vectors/union_vector.rs b/crates/planus/src/union_vectors/union_vector.rs
index 82749cd..e677306 100644
--- a/crates/planus/src/union_vectors/union_vector.rs
+++ b/crates/planus/src/union_vectors/union_vector.rs
@@ -420,7 +420,7 @@ impl<'buf, T: VectorReadUnion<'buf>> UnionVectorIndex<'buf, T> for usize {
     #[inline]
     unsafe fn get_unchecked(self, vector: UnionVector<'buf, T>) -> Self::Output {
         debug_assert!(self < vector.len);
-        debug_assert!(vector.len.checked_mul(4).unwrap() <= vector.tags.len());
+        debug_assert!(vector.len <= vector.tags.len());
         debug_assert!(vector.len.checked_mul(4).unwrap() <= vector.values.len());
         let tag = *vector.tags.buffer.get_unchecked(self);
         <T as VectorReadUnion>::from_buffer(vector.values, tag, 4 * self)
-- 
2.43.0


From fb191ba33048966fdd7474c56dfa31420dc8424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:50 +0000
Subject: [PATCH 14/38] fix: accept vtables that end after the tag of a NONE
 union

---
 crates/planus/src/table_reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/planus/src/table_reader.rs b/crates/planus/src/table_reader.rs
index 6da41df..762deae 100644
--- a/crates/planus/src/table_reader.rs
+++ b/crates/planus/src/table_reader.rs
@@ -116,6 +116,9 @@ impl<'buf> Table<'buf> {
             }
         } else if self.vtable.len() <= 2 * vtable_offset {
             Ok(None)
+        } else if self.access::<u8>(vtable_offset, type_, method)? == Some(0) {
+            // The vtable can end after the tag when NONE was written explicitly
+            Ok(None)
         } else {
             Err(make_error(ErrorKind::InvalidVtableLength {
                 // The slice does not contain the vtable or objects
-- 
2.43.0


From 8a1b0afdccdd8840d6fb5ac6ebd69869ca4c5727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:51 +0000
Subject: [PATCH 15/38] fix: refuse to write tables whose inline data overflows
 the vtable

---
 crates/planus/src/table_writer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/planus/src/table_writer.rs b/crates/planus/src/table_writer.rs
index 4293a93..d32da92 100644
--- a/crates/planus/src/table_writer.rs
+++ b/crates/planus/src/table_writer.rs
@@ -53,11 +53,11 @@ impl<const VTABLE_MAX_BYTES: usize> TableWriter<VTABLE_MAX_BYTES> {
             0,
             (self.vtable_size as u16).to_le_bytes(),
         );
-        write_array(
-            &mut self.vtable_buffer,
-            2,
-            (self.object_size as u16).to_le_bytes(),
-        );
+        let object_size: u16 = self
+            .object_size
+            .try_into()
+            .expect("the inline data of a table cannot exceed 65535 bytes");
+        write_array(&mut self.vtable_buffer, 2, object_size.to_le_bytes());
 
         let vtable_offset = builder.write_vtable(&self.vtable_buffer[..self.vtable_size]);
 
-- 
2.43.0


From 45e139ae1eaa475b155a15495d6e12684efaffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:18 +0000
Subject: [PATCH 16/38] fix: keep table fields aligned when one of them has a
 forced alignment

---
 .../src/intermediate_language/translation.rs               | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 16ce055..379aaa9 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1586,7 +1586,7 @@ impl<'a> Translator<'a> {
             if let DeclarationKind::Table(decl_kind) = &mut decl.kind {
                 for field in decl_kind.fields.values_mut() {
                     let mut tag_kind = TableFieldTagKind::None;
-                    let (value_size, mut alignment) = match &field.type_.kind {
+                    let (value_size, alignment) = match &field.type_.kind {
                         TypeKind::Table(_) | TypeKind::String => (4, 4),
                         TypeKind::Vector(inner) => {
                             if matches!(&inner.kind, TypeKind::Union(_)) {
@@ -1626,7 +1626,7 @@ impl<'a> Translator<'a> {
                     if let Some((forced_alignment, forced_alignment_span)) = field.forced_alignment
                     {
                         if alignment <= forced_alignment {
-                            alignment = forced_alignment;
+                            max_alignment = max_alignment.max(forced_alignment);
                         } else {
                             self.ctx.emit_error(
                                 ErrorKind::MISC_SEMANTIC_ERROR,
@@ -1649,6 +1649,9 @@ impl<'a> Translator<'a> {
                     max_alignment = max_alignment.max(alignment);
                     field.object_value_size = value_size;
                     field.object_tag_kind = tag_kind;
+                    // The fields are written back to back in the order of their alignments. This
+                    // only keeps them aligned if the order is based on the alignments that
+                    // their sizes are multiples of, and not on the forced ones.
                     field.object_alignment = alignment;
                     field.object_alignment_mask = alignment - 1;
                 }
-- 
2.43.0


From 37d21baf36051f0084db7f307712b4bcc5870946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:19 +0000
Subject: [PATCH 17/38] fix: avoid colliding module names for sibling
 namespaces

---
 crates/planus-codegen/src/backend_translation.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/planus-codegen/src/backend_translation.rs b/crates/planus-codegen/src/backend_translation.rs
index e2316d9..0e133ab 100644
--- a/crates/planus-codegen/src/backend_translation.rs
+++ b/crates/planus-codegen/src/backend_translation.rs
@@ -418,8 +418,17 @@ pub fn run_backend<B: ?Sized + Backend>(
     let translated_namespaces = declarations
         .namespaces
         .iter()
-        .zip(&mut namespace_names)
-        .map(|((namespace_name, namespace), namespace_names)| {
+        .map(|(namespace_name, namespace)| {
+            // The module lives inside the parent namespace, so that is where the name is reserved
+            let parent_index = if namespace_name.0.is_empty() {
+                declarations.namespaces.get_index_of(namespace_name)
+            } else {
+                declarations
+                    .namespaces
+                    .get_index_of(&namespace_name.clone_pop())
+            }
+            .unwrap();
+            let namespace_names = &mut namespace_names[parent_index];
             backend.generate_namespace(
                 &mut NamespaceNames {
                     _global_names: global_names,
-- 
2.43.0


From 5c8728e916ed2e6af73d5c1a783e2ea3ca5977ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:47 +0000
Subject: [PATCH 18/38] fix: accept the backslash escape sequence in strings

---
 crates/planus-lexer/src/text_lexer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/planus-lexer/src/text_lexer.rs b/crates/planus-lexer/src/text_lexer.rs
index 64eaa10..51d5b99 100644
--- a/crates/planus-lexer/src/text_lexer.rs
+++ b/crates/planus-lexer/src/text_lexer.rs
@@ -54,6 +54,7 @@ impl Text {
                     "f" => out.push('\x0c'),
                     "\"" => out.push('"'),
                     "'" => out.push('\''),
+                    "\\" => out.push('\\'),
                     "/" => out.push('/'),
                     _ => {
                         error.get_or_insert(LexicalError::new("Invalid escape sequence", span));
-- 
2.43.0


From d643c5c1e9f08bdf51580cdf94791b0bd8f98693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 19/38] fix: qualify type names that generic parameters of the
 builders may shadow

---
 crates/planus-codegen/src/rust/mod.rs         | 24 +++++++++++++++++--
 .../src/templates/rust/table.template         | 22 ++++++++---------
 .../src/templates/rust/union.template         | 12 +++++-----
 3 files changed, 39 insertions(+), 19 deletions(-)

diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index 179c3c1..add73af 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -35,6 +35,7 @@ pub struct Namespace {
 #[derive(Clone, Debug)]
 pub struct Table {
     pub owned_name: String,
+    pub owned_path: String,
     pub ref_name: String,
     pub builder_name: String,
     pub should_do_default: bool,
@@ -94,6 +95,7 @@ pub struct EnumVariant {
 #[derive(Clone, Debug)]
 pub struct Union {
     pub owned_name: String,
+    pub owned_path: String,
     pub builder_name: String,
     pub ref_name: String,
     pub ref_name_with_lifetime: String,
@@ -121,6 +123,20 @@ pub struct RpcMethod {}
 
 const BINDING_KIND_TYPES: &str = "types";
 
+/// The builders use `N`, `T`, `T0`, `T1`, ... as generic parameters, so types with
+/// those names can only be mentioned by a qualified path
+fn qualify_if_shadowed(name: &str) -> String {
+    let is_parameter = name == "N"
+        || name
+            .strip_prefix('T')
+            .is_some_and(|index| index.bytes().all(|c| c.is_ascii_digit()));
+    if is_parameter {
+        format!("self::{name}")
+    } else {
+        name.to_string()
+    }
+}
+
 /// Removing underscores can leave an identifier that starts with a digit
 fn fix_leading_digit(name: String) -> String {
     if name.starts_with(|c: char| c.is_ascii_digit()) {
@@ -308,8 +324,10 @@ impl Backend for RustBackend {
         _decl: &intermediate::Table,
     ) -> Table {
         let decl_name = decl_name.0.last().unwrap();
+        let owned_name = reserve_type_name(decl_name, declaration_names);
         Table {
-            owned_name: reserve_type_name(decl_name, declaration_names),
+            owned_path: qualify_if_shadowed(&owned_name),
+            owned_name,
             ref_name: reserve_type_name(&format!("{decl_name}Ref"), declaration_names),
             builder_name: reserve_type_name(&format!("{decl_name}Builder"), declaration_names),
             should_do_default: self.default_analysis[decl_id.0],
@@ -361,8 +379,10 @@ impl Backend for RustBackend {
         let decl_name = decl_name.0.last().unwrap();
         let ref_name = reserve_type_name(&format!("{decl_name}Ref"), declaration_names);
         let builder_name = reserve_type_name(&format!("{decl_name}Builder"), declaration_names);
+        let owned_name = reserve_type_name(decl_name, declaration_names);
         Union {
-            owned_name: reserve_type_name(decl_name, declaration_names),
+            owned_path: qualify_if_shadowed(&owned_name),
+            owned_name,
             builder_name,
             ref_name_with_lifetime: if decl.variants.is_empty() {
                 ref_name.clone()
diff --git a/crates/planus-codegen/src/templates/rust/table.template b/crates/planus-codegen/src/templates/rust/table.template
index 252b1ac..cc5d410 100644
--- a/crates/planus-codegen/src/templates/rust/table.template
+++ b/crates/planus-codegen/src/templates/rust/table.template
@@ -227,8 +227,8 @@ impl<
 )> {
     /// Finish writing the builder to get an [Offset](::planus::Offset) to a serialized [{{info.owned_name}}].
     #[inline]
-    pub fn finish(self, builder: &mut ::planus::Builder) -> ::planus::Offset<{{ info.owned_name }}>
-        where Self: ::planus::WriteAsOffset<{{ info.owned_name }}>
+    pub fn finish(self, builder: &mut ::planus::Builder) -> ::planus::Offset<{{ info.owned_path }}>
+        where Self: ::planus::WriteAsOffset<{{ info.owned_path }}>
     {
         ::planus::WriteAsOffset::prepare(&self, builder)
     }
@@ -238,15 +238,15 @@ impl<
     {% for field in fields.declaration_order() %}
         T{{ loop.index0 }}: ::planus::{{ field.info.create_trait }},
     {% endfor %}
-> ::planus::WriteAs<::planus::Offset<{{info.owned_name}}>> for {{ info.builder_name }}<(
+> ::planus::WriteAs<::planus::Offset<{{info.owned_path}}>> for {{ info.builder_name }}<(
     {% for field in 0..fields.declaration_order().count() %}
         T{{loop.index0}},
     {% endfor %}
 )> {
-    type Prepared = ::planus::Offset<{{ info.owned_name }}>;
+    type Prepared = ::planus::Offset<{{ info.owned_path }}>;
 
     #[inline]
-    fn prepare(&self, builder: &mut ::planus::Builder) -> ::planus::Offset<{{info.owned_name}}> {
+    fn prepare(&self, builder: &mut ::planus::Builder) -> ::planus::Offset<{{info.owned_path}}> {
         ::planus::WriteAsOffset::prepare(self, builder)
     }
 }
@@ -255,15 +255,15 @@ impl<
     {% for field in fields.declaration_order() %}
         T{{ loop.index0 }}: ::planus::{{ field.info.create_trait }},
     {% endfor %}
-> ::planus::WriteAsOptional<::planus::Offset<{{info.owned_name}}>> for {{ info.builder_name }}<(
+> ::planus::WriteAsOptional<::planus::Offset<{{info.owned_path}}>> for {{ info.builder_name }}<(
     {% for field in 0..fields.declaration_order().count() %}
         T{{loop.index0}},
     {% endfor %}
 )> {
-    type Prepared = ::planus::Offset<{{ info.owned_name }}>;
+    type Prepared = ::planus::Offset<{{ info.owned_path }}>;
 
     #[inline]
-    fn prepare(&self, builder: &mut ::planus::Builder) -> ::core::option::Option<::planus::Offset<{{info.owned_name}}>> {
+    fn prepare(&self, builder: &mut ::planus::Builder) -> ::core::option::Option<::planus::Offset<{{info.owned_path}}>> {
         ::core::option::Option::Some(::planus::WriteAsOffset::prepare(self, builder))
     }
 }
@@ -272,13 +272,13 @@ impl<
     {% for field in fields.declaration_order() %}
         T{{ loop.index0 }}: ::planus::{{ field.info.create_trait }},
     {% endfor %}
-> ::planus::WriteAsOffset<{{info.owned_name}}> for {{ info.builder_name }}<(
+> ::planus::WriteAsOffset<{{info.owned_path}}> for {{ info.builder_name }}<(
     {% for field in 0..fields.declaration_order().count() %}
         T{{loop.index0}},
     {% endfor %}
 )> {
     #[inline]
-    fn prepare(&self, builder: &mut ::planus::Builder) -> ::planus::Offset<{{info.owned_name}}> {
+    fn prepare(&self, builder: &mut ::planus::Builder) -> ::planus::Offset<{{info.owned_path}}> {
         {% if fields.declaration_order().count() != 0 %}
         let (
             {% for _ in fields.declaration_order() %}
@@ -286,7 +286,7 @@ impl<
             {% endfor %}
         ) = &self.0;
         {%- endif -%}
-        {{ info.owned_name }}::create(
+        {{ info.owned_path }}::create(
             builder,
             {% for _ in fields.declaration_order() %}
                 v{{loop.index0}},
diff --git a/crates/planus-codegen/src/templates/rust/union.template b/crates/planus-codegen/src/templates/rust/union.template
index 195d9d7..c87fb89 100644
--- a/crates/planus-codegen/src/templates/rust/union.template
+++ b/crates/planus-codegen/src/templates/rust/union.template
@@ -86,28 +86,28 @@ impl {{ info.builder_name }}<::planus::Uninitialized> {
 impl<const N: u8, T> {{ info.builder_name }}<::planus::Initialized<N, T>> {
     /// Finish writing the builder to get an [UnionOffset](::planus::UnionOffset) to a serialized [{{info.owned_name}}].
     #[inline]
-    pub fn finish(self, builder: &mut ::planus::Builder) -> ::planus::UnionOffset<{{ info.owned_name }}>
-        where Self: ::planus::WriteAsUnion<{{info.owned_name}}>
+    pub fn finish(self, builder: &mut ::planus::Builder) -> ::planus::UnionOffset<{{ info.owned_path }}>
+        where Self: ::planus::WriteAsUnion<{{info.owned_path}}>
     {
         ::planus::WriteAsUnion::prepare(&self, builder)
     }
 }
 
 {% for variant in variants -%}
-impl<T> ::planus::WriteAsUnion<{{info.owned_name}}> for {{info.builder_name}}<::planus::Initialized<{{loop.index}}, T>>
+impl<T> ::planus::WriteAsUnion<{{info.owned_path}}> for {{info.builder_name}}<::planus::Initialized<{{loop.index}}, T>>
     where T: ::planus::{{variant.create_trait}}
 {
     #[inline]
-    fn prepare(&self, builder: &mut ::planus::Builder) -> ::planus::UnionOffset<{{info.owned_name}}> {
+    fn prepare(&self, builder: &mut ::planus::Builder) -> ::planus::UnionOffset<{{info.owned_path}}> {
         ::planus::UnionOffset::new({{loop.index}}, (self.0).0.prepare(builder).downcast())
     }
 }
 
-impl<T> ::planus::WriteAsOptionalUnion<{{info.owned_name}}> for {{info.builder_name}}<::planus::Initialized<{{loop.index}}, T>>
+impl<T> ::planus::WriteAsOptionalUnion<{{info.owned_path}}> for {{info.builder_name}}<::planus::Initialized<{{loop.index}}, T>>
     where T: ::planus::{{variant.create_trait}}
 {
     #[inline]
-    fn prepare(&self, builder: &mut ::planus::Builder) -> ::core::option::Option<::planus::UnionOffset<{{info.owned_name}}>> {
+    fn prepare(&self, builder: &mut ::planus::Builder) -> ::core::option::Option<::planus::UnionOffset<{{info.owned_path}}>> {
         ::core::option::Option::Some(::planus::WriteAsUnion::prepare(self, builder))
     }
 }
-- 
2.43.0


From 3b241ce4e1f24bf15e6f8d617d6ced88a5fef40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 20/38] fix: write the file identifier after the root offset,
 not before it

finish() writes back to front, so the root offset ended up behind the file
identifier: readers saw the identifier as the root offset.
---
 crates/planus/src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/planus/src/builder.rs b/crates/planus/src/builder.rs
index 4c111d7..871d128 100644
--- a/crates/planus/src/builder.rs
+++ b/crates/planus/src/builder.rs
@@ -263,8 +263,8 @@ impl Builder {
                 8,
                 <Offset<T> as Primitive>::ALIGNMENT_MASK.max(self.alignment_mask),
             ) as u32;
-            self.write(&(offset - 4 - root.offset).to_le_bytes());
             self.write(&file_identifier);
+            self.write(&(offset - root.offset).to_le_bytes());
         } else {
             let offset = self.prepare_write(
                 4,
-- 
2.43.0


From 27a7de050ed76bb709b58b8aeac2fde48993a77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 21/38] fix: round hexadecimal float literals once and without
 losing denormals or digits

---
 .../src/intermediate_language/translation.rs  | 57 ++++++++++++++++---
 1 file changed, 48 insertions(+), 9 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 379aaa9..3dbe7cd 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -52,20 +52,57 @@ fn default_docstring_for_namespace(path: &AbsolutePath) -> String {
 }
 
 /// Parses the part after the `0x` prefix of a hexadecimal floating point (or integer) literal.
-fn parse_hex_float(v: &str) -> Option<f64> {
+///
+/// The result is rounded once, to a float with `mantissa_bits` bits of precision whose smallest
+/// positive value is `2^min_exponent`.
+fn parse_hex_float(v: &str, mantissa_bits: i64, min_exponent: i64) -> Option<f64> {
     let (mantissa, exponent) = match v.split_once(['p', 'P']) {
         Some((mantissa, exponent)) => (mantissa, exponent.parse::<i32>().ok()?),
         None => (v, 0),
     };
     let (integer, fraction) = mantissa.split_once('.').unwrap_or((mantissa, ""));
-    let mut result = 0.0f64;
+    let mut exponent = i64::from(exponent) - 4 * i64::try_from(fraction.len()).ok()?;
+    let mut bits = 0u64;
     let mut seen_digit = false;
     for digit in integer.chars().chain(fraction.chars()) {
-        result = result * 16.0 + f64::from(digit.to_digit(16)?);
+        let digit = u64::from(digit.to_digit(16)?);
+        if bits >> 60 == 0 {
+            bits = (bits << 4) | digit;
+        } else {
+            // The digit is too small to matter for anything but the direction of the rounding
+            bits |= u64::from(digit != 0);
+            exponent += 4;
+        }
         seen_digit = true;
     }
-    let exponent = exponent.checked_sub(4 * i32::try_from(fraction.len()).ok()?)?;
-    seen_digit.then(|| result * 2.0f64.powi(exponent))
+    if !seen_digit {
+        return None;
+    }
+
+    let num_bits = i64::from(u64::BITS - bits.leading_zeros());
+    let excess_bits = (num_bits - mantissa_bits).max(min_exponent - exponent);
+    if num_bits > 0 && excess_bits > 0 {
+        bits = if excess_bits > num_bits {
+            // Less than half of the smallest positive value
+            0
+        } else {
+            let half = 1u128 << (excess_bits - 1);
+            let rest = u128::from(bits) & ((1u128 << excess_bits) - 1);
+            let quotient = (u128::from(bits) >> excess_bits) as u64;
+            let round_up = rest > half || (rest == half && quotient & 1 == 1);
+            quotient + u64::from(round_up)
+        };
+        exponent += excess_bits;
+    }
+    if bits == 0 {
+        return Some(0.0);
+    }
+
+    // There are no bits left to lose. The scaling is split since the power itself can be out of
+    // range even though the result is not
+    let exponent = exponent.clamp(-2000, 2000) as i32;
+    let first = exponent / 2;
+    Some(bits as f64 * 2.0f64.powi(first) * 2.0f64.powi(exponent - first))
 }
 
 // The size of the vtable is stored in a `u16` and includes 4 bytes of header
@@ -408,10 +445,12 @@ impl<'a> Translator<'a> {
         // Integer literals are allowed to use underscores as separators
         let v = v.replace('_', "");
         let literal = if v.starts_with("0x") || v.starts_with("0X") {
-            parse_hex_float(&v[2..]).map(|value| match type_ {
-                ast::FloatType::F32 => FloatLiteral::F32(value as f32),
-                ast::FloatType::F64 => FloatLiteral::F64(value),
-            })
+            match type_ {
+                ast::FloatType::F32 => parse_hex_float(&v[2..], f32::MANTISSA_DIGITS.into(), -149)
+                    .map(|value| FloatLiteral::F32(value as f32)),
+                ast::FloatType::F64 => parse_hex_float(&v[2..], f64::MANTISSA_DIGITS.into(), -1074)
+                    .map(FloatLiteral::F64),
+            }
         } else {
             match type_ {
                 ast::FloatType::F32 => v.parse().ok().map(FloatLiteral::F32),
-- 
2.43.0


From 2201f57eebdc6c7a356080fd2a3a7b15ec91cd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 22/38] fix: formatting a file that cannot be read reports the
 error instead of panicking

---
 crates/planus-translation/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/planus-translation/src/lib.rs b/crates/planus-translation/src/lib.rs
index 10c8779..543b870 100644
--- a/crates/planus-translation/src/lib.rs
+++ b/crates/planus-translation/src/lib.rs
@@ -25,7 +25,7 @@ pub use intermediate_language::{translate_files, translate_files_with_options};
 
 pub fn format_file(path: &impl AsRef<Path>, ignore_errors: bool) -> Option<String> {
     let mut ctx = ctx::Ctx::default();
-    let file_id = ctx.add_file(path, []).unwrap();
+    let file_id = ctx.add_file(path, [])?;
     if let Some(parsed) = ctx.parse_file(file_id) {
         if ctx.has_errors() && !ignore_errors {
             None
-- 
2.43.0


From ad93c1c39df90d9a42b7030e2297fbf761596117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 23/38] fix: a file named by both a relative and an absolute
 path is only read once

---
 crates/planus-translation/src/ctx.rs      | 40 ++++++++++++-----------
 crates/planus-translation/src/util/mod.rs | 11 ++++---
 2 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/crates/planus-translation/src/ctx.rs b/crates/planus-translation/src/ctx.rs
index b221e3b..60f69c2 100644
--- a/crates/planus-translation/src/ctx.rs
+++ b/crates/planus-translation/src/ctx.rs
@@ -150,27 +150,29 @@ impl Ctx {
         path: P,
         labels: impl IntoIterator<Item = Label<FileId>>,
     ) -> Option<FileId> {
-        let normalized_path = crate::util::normalize_path(path.as_ref());
-        match self.file_map.entry(normalized_path) {
+        let path = crate::util::normalize_path(path.as_ref());
+        // A file is only read once, no matter if it is named by a relative or an absolute path
+        let absolute_path = match std::path::absolute(&path) {
+            Ok(absolute_path) => crate::util::normalize_path(&absolute_path),
+            Err(_) => path.clone(),
+        };
+        match self.file_map.entry(absolute_path) {
             indexmap::map::Entry::Occupied(entry) => Some(*entry.into_mut()),
-            indexmap::map::Entry::Vacant(entry) => {
-                let path = entry.key().clone();
-                match std::fs::read_to_string(&path) {
-                    Ok(content) => {
-                        let file_id = self.files.add(path, content);
-                        entry.insert(file_id);
-                        Some(file_id)
-                    }
-                    Err(e) => {
-                        self.emit_error(
-                            ErrorKind::DECLARATION_PARSE_ERROR,
-                            labels,
-                            Some(&format!("Could not read file {path:?}: {e}")),
-                        );
-                        None
-                    }
+            indexmap::map::Entry::Vacant(entry) => match std::fs::read_to_string(&path) {
+                Ok(content) => {
+                    let file_id = self.files.add(path, content);
+                    entry.insert(file_id);
+                    Some(file_id)
                 }
-            }
+                Err(e) => {
+                    self.emit_error(
+                        ErrorKind::DECLARATION_PARSE_ERROR,
+                        labels,
+                        Some(&format!("Could not read file {path:?}: {e}")),
+                    );
+                    None
+                }
+            },
         }
     }
 
diff --git a/crates/planus-translation/src/util/mod.rs b/crates/planus-translation/src/util/mod.rs
index 4d06435..6c0cf6d 100644
--- a/crates/planus-translation/src/util/mod.rs
+++ b/crates/planus-translation/src/util/mod.rs
@@ -18,13 +18,14 @@ pub fn normalize_path(path: &Path) -> PathBuf {
                 ret.push(component.as_os_str());
             }
             Component::CurDir => {}
-            Component::ParentDir => {
-                if let Some(Component::Normal(_)) = ret.components().next_back() {
+            Component::ParentDir => match ret.components().next_back() {
+                Some(Component::Normal(_)) => {
                     ret.pop();
-                } else {
-                    ret.push(Component::ParentDir);
                 }
-            }
+                // The parent of the root is the root itself
+                Some(Component::RootDir) => {}
+                _ => ret.push(Component::ParentDir),
+            },
             Component::Normal(c) => {
                 ret.push(c);
             }
-- 
2.43.0


From 07a36d4b07313c86932d7d84a60f70e965395448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 24/38] fix: a top-level namespace named root no longer makes
 the generated code ambiguous

---
 crates/planus-codegen/src/rust/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index add73af..fed63db 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -309,6 +309,13 @@ impl Backend for RustBackend {
         namespace_name: &AbsolutePath,
         _namespace: &intermediate::Namespace,
     ) -> Namespace {
+        if namespace_name.0.len() == 1 {
+            // The generated code is wrapped in a module with this name and then glob-imported
+            // from it, which becomes ambiguous if a top-level module has the same name
+            namespace_names
+                .namespace_names
+                .try_reserve(BINDING_KIND_TYPES, "root");
+        }
         let name = namespace_name.0.last().map_or_else(String::new, |name| {
             reserve_module_name(name, namespace_names)
         });
-- 
2.43.0


From ecb0aebc4e101166f2e9068fd0186488a9518605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 25/38] fix: gen is a keyword in edition 2024

---
 crates/planus-codegen/src/rust/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index fed63db..1282f3f 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -299,8 +299,8 @@ impl Backend for RustBackend {
         "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move",
         "mut", "pub", "ref", "return", "Self", "self", "static", "struct", "super", "trait",
         "true", "type", "union", "unsafe", "use", "where", "while", "abstract", "become", "box",
-        "do", "final", "macro", "override", "priv", "try", "typeof", "unsized", "virtual", "yield",
-        "_",
+        "do", "final", "gen", "macro", "override", "priv", "try", "typeof", "unsized", "virtual",
+        "yield", "_",
     ];
 
     fn generate_namespace(
-- 
2.43.0


From ea3d44226d39f021187b3d292021964a1b374729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 26/38] fix: carriage returns and bidirectional characters in
 docs do not break the generated code

---
 crates/planus-codegen/src/rust/mod.rs         | 22 +++++++++++++++++++
 .../src/templates/rust/enum.template          |  4 ++--
 .../src/templates/rust/namespace.template     |  4 ++--
 .../src/templates/rust/struct.template        |  4 ++--
 .../src/templates/rust/table.template         |  4 ++--
 .../src/templates/rust/union.template         |  4 ++--
 6 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index 1282f3f..9d95bda 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -121,6 +121,28 @@ pub struct RpcService {}
 #[derive(Clone, Debug)]
 pub struct RpcMethod {}
 
+/// Formats one line of documentation
+///
+/// Carriage returns and characters changing the direction of the text cannot be part of
+/// a doc comment, so lines containing them use the attribute instead.
+pub(crate) fn format_doc_comment(line: &str) -> String {
+    let is_forbidden = |c| {
+        matches!(
+            c,
+            '\r' | '\n' | '\u{202A}'..='\u{202E}' | '\u{2066}'..='\u{2069}'
+        )
+    };
+    if line
+        .strip_suffix('\r')
+        .unwrap_or(line)
+        .contains(is_forbidden)
+    {
+        format!("#[doc = {:?}]", format!(" {line}"))
+    } else {
+        format!("/// {line}")
+    }
+}
+
 const BINDING_KIND_TYPES: &str = "types";
 
 /// The builders use `N`, `T`, `T0`, `T1`, ... as generic parameters, so types with
diff --git a/crates/planus-codegen/src/templates/rust/enum.template b/crates/planus-codegen/src/templates/rust/enum.template
index 9c58321..f598a18 100644
--- a/crates/planus-codegen/src/templates/rust/enum.template
+++ b/crates/planus-codegen/src/templates/rust/enum.template
@@ -1,5 +1,5 @@
 {% for docstring in docstrings.iter_strings() %}
-/// {{ docstring }}
+{{ crate::rust::format_doc_comment(docstring) }}
 {%- endfor %}
 #[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, ::serde::Serialize, ::serde::Deserialize)]
 {%- if !variants.is_empty() -%}
@@ -8,7 +8,7 @@
 pub enum {{ info.name }} {
     {% for variant in variants -%}
         {% for docstring in variant.name_and_docs.docstrings.iter_strings() %}
-        /// {{ docstring }}
+        {{ crate::rust::format_doc_comment(docstring) }}
         {%- endfor %}
         {{ variant.name }} = {{ variant.value }},
     {% endfor %}
diff --git a/crates/planus-codegen/src/templates/rust/namespace.template b/crates/planus-codegen/src/templates/rust/namespace.template
index a781586..5e58d31 100644
--- a/crates/planus-codegen/src/templates/rust/namespace.template
+++ b/crates/planus-codegen/src/templates/rust/namespace.template
@@ -5,14 +5,14 @@ pub use root::*;
 const _: () = ::planus::check_version_compatibility("planus-1.3.0");
 
 {% for docstring in docstrings.iter_strings() %}
-/// {{ docstring }}
+{{ crate::rust::format_doc_comment(docstring) }}
 {%- endfor %}
 #[no_implicit_prelude]
 #[allow(clippy::needless_lifetimes)]
 mod root {
 {%- else -%}
 {% for docstring in docstrings.iter_strings() %}
-/// {{ docstring }}
+{{ crate::rust::format_doc_comment(docstring) }}
 {%- endfor %}
 pub mod {{info.name}} {
 {%- endif -%}
diff --git a/crates/planus-codegen/src/templates/rust/struct.template b/crates/planus-codegen/src/templates/rust/struct.template
index 12d6251..e0bbd7c 100644
--- a/crates/planus-codegen/src/templates/rust/struct.template
+++ b/crates/planus-codegen/src/templates/rust/struct.template
@@ -1,5 +1,5 @@
 {% for docstring in docstrings.iter_strings() %}
-/// {{ docstring }}
+{{ crate::rust::format_doc_comment(docstring) }}
 {%- endfor %}
 #[derive(Copy, Clone, Debug, PartialEq, PartialOrd,
 {% if info.should_do_eq %}Eq, Ord, Hash,{% endif %}
@@ -9,7 +9,7 @@
 pub struct {{ info.owned_name }} {
     {% for field in fields -%}
         {% for docstring in field.name_and_docs.docstrings.iter_strings() %}
-        /// {{ docstring }}
+        {{ crate::rust::format_doc_comment(docstring) }}
         {%- endfor %}
         pub {{ field.info.name }}: {{ field.info.owned_type }},
     {% endfor %}
diff --git a/crates/planus-codegen/src/templates/rust/table.template b/crates/planus-codegen/src/templates/rust/table.template
index cc5d410..885c3ea 100644
--- a/crates/planus-codegen/src/templates/rust/table.template
+++ b/crates/planus-codegen/src/templates/rust/table.template
@@ -1,5 +1,5 @@
 {% for docstring in docstrings.iter_strings() %}
-/// {{ docstring }}
+{{ crate::rust::format_doc_comment(docstring) }}
 {%- endfor %}
 #[derive(Clone, Debug, PartialEq, PartialOrd,
 {% if info.should_do_eq %}Eq, Ord, Hash,{% endif %}
@@ -8,7 +8,7 @@
 pub struct {{ info.owned_name }}{
     {% for field in fields.declaration_order() -%}
         {% for docstring in field.name_and_docs.docstrings.iter_strings() %}
-        /// {{ docstring }}
+        {{ crate::rust::format_doc_comment(docstring) }}
         {%- endfor %}
         pub {{ field.info.name }}: {{ field.info.owned_type }},
     {%- endfor -%}
diff --git a/crates/planus-codegen/src/templates/rust/union.template b/crates/planus-codegen/src/templates/rust/union.template
index c87fb89..76c6f07 100644
--- a/crates/planus-codegen/src/templates/rust/union.template
+++ b/crates/planus-codegen/src/templates/rust/union.template
@@ -1,5 +1,5 @@
 {% for docstring in docstrings.iter_strings() %}
-/// {{ docstring }}
+{{ crate::rust::format_doc_comment(docstring) }}
 {%- endfor %}
 #[derive(Clone, Debug, PartialEq, PartialOrd,
 {% if info.should_do_eq %}Eq, Ord, Hash,{% endif %}
@@ -7,7 +7,7 @@
 pub enum {{ info.owned_name }}{
     {% for variant in variants -%}
         {% for docstring in variant.name_and_docs.docstrings.iter_strings() %}
-        /// {{ docstring }}
+        {{ crate::rust::format_doc_comment(docstring) }}
         {%- endfor %}
         {{ variant.enum_name }}({{ variant.owned_type }}),
     {% endfor %}
-- 
2.43.0


From e995c9ed35d74c6e6b18100a4f31b690c715679c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 27/38] fix: order and hash nested struct references
 independently of their getter names

---
 .../src/templates/rust/struct.template         | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/planus-codegen/src/templates/rust/struct.template b/crates/planus-codegen/src/templates/rust/struct.template
index e0bbd7c..8b64822 100644
--- a/crates/planus-codegen/src/templates/rust/struct.template
+++ b/crates/planus-codegen/src/templates/rust/struct.template
@@ -156,9 +156,9 @@ impl<'a, 'b> ::core::cmp::PartialEq<{{ info.ref_name }}<'a>> for {{ info.ref_nam
         fn cmp(&self, other: &{{info.ref_name}}<'_>) -> ::core::cmp::Ordering {
             {% for field in fields -%}
                 {% if loop.first %}
-                self.{{field.info.name}}().cmp(&other.{{field.info.name}}())
+                ::core::cmp::Ord::cmp(&self.{{field.info.name}}(), &other.{{field.info.name}}())
                 {% else %}
-                .then_with(|| self.{{field.info.name}}().cmp(&other.{{field.info.name}}()))
+                .then_with(|| ::core::cmp::Ord::cmp(&self.{{field.info.name}}(), &other.{{field.info.name}}()))
                 {% endif %}
             {%- endfor %}
         }
@@ -167,7 +167,7 @@ impl<'a, 'b> ::core::cmp::PartialEq<{{ info.ref_name }}<'a>> for {{ info.ref_nam
     impl<'a> ::core::hash::Hash for {{ info.ref_name }}<'a> {
         fn hash<H: ::core::hash::Hasher>(&self, state: &mut H) {
             {% for field in fields -%}
-                self.{{field.info.name}}().hash(state);
+                ::core::hash::Hash::hash(&self.{{field.info.name}}(), state);
             {%- endfor %}
         }
     }
@@ -175,10 +175,20 @@ impl<'a, 'b> ::core::cmp::PartialEq<{{ info.ref_name }}<'a>> for {{ info.ref_nam
     impl<'a, 'b> ::core::cmp::PartialOrd<{{ info.ref_name }}<'a>> for {{ info.ref_name }}<'b> {
         fn partial_cmp(&self, other: &{{info.ref_name}}<'_>) -> ::core::option::Option<::core::cmp::Ordering> {
             {% for field in fields -%}
+                {# The getters of nested structs might be named like the methods of the traits -#}
+                {% let is_struct = field.info.getter_return_type.ends_with("<'a>") -%}
                 {% if loop.last %}
+                {% if is_struct -%}
+                ::core::cmp::PartialOrd::partial_cmp(&self.{{field.info.name}}(), &other.{{field.info.name}}())
+                {%- else -%}
                 self.{{field.info.name}}().partial_cmp(&other.{{field.info.name}}())
+                {%- endif %}
                 {% else %}
-                match self.{{field.info.name}}().partial_cmp(&other.{{field.info.name}}()) {
+                match {% if is_struct -%}
+                    ::core::cmp::PartialOrd::partial_cmp(&self.{{field.info.name}}(), &other.{{field.info.name}}())
+                {%- else -%}
+                    self.{{field.info.name}}().partial_cmp(&other.{{field.info.name}}())
+                {%- endif %} {
                     ::core::option::Option::Some(::core::cmp::Ordering::Equal) => (),
                     o => return o,
                 }
-- 
2.43.0


From 512839faa3e32000ede4375f589f3d84fca99424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 28/38] fix: escape string defaults in dot labels

---
 crates/planus-codegen/src/dot/mod.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/crates/planus-codegen/src/dot/mod.rs b/crates/planus-codegen/src/dot/mod.rs
index 46db5cb..9a4f2d9 100644
--- a/crates/planus-codegen/src/dot/mod.rs
+++ b/crates/planus-codegen/src/dot/mod.rs
@@ -127,6 +127,25 @@ fn get_name(type_: &ResolvedType<'_, DotBackend>) -> (Cow<'static, str>, Option<
     }
 }
 
+/// Escapes text for the HTML-like labels of graphviz
+fn escape_label(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+    for c in text.chars() {
+        match c {
+            '&' => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '"' => escaped.push_str("&quot;"),
+            // These are not allowed in labels, not even as entities
+            c if c.is_control() || matches!(c, '\u{fffe}' | '\u{ffff}') => {
+                escaped.extend(c.escape_default())
+            }
+            c => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 impl Backend for DotBackend {
     type NamespaceInfo = Namespace;
     type TableInfo = Table;
@@ -242,7 +261,9 @@ impl Backend for DotBackend {
                 AssignMode::HasDefault(Literal::EnumTag { variant_index, .. }),
                 ResolvedType::Enum(_, _, _, _, variants),
             ) => format!("default {}", variants[*variant_index].name).into(),
-            (AssignMode::HasDefault(default), _) => format!("default {default}").into(),
+            (AssignMode::HasDefault(default), _) => {
+                format!("default {}", escape_label(&default.to_string())).into()
+            }
         };
 
         TableField {
-- 
2.43.0


From da2bcd73d0eccc76eba384dd18fbb85ab7c6303e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:12 +0000
Subject: [PATCH 29/38] fix: the inspector follows structs in unions instead of
 panicking

---
 crates/planus-buffer-inspection/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/planus-buffer-inspection/src/lib.rs b/crates/planus-buffer-inspection/src/lib.rs
index 92b1e9d..0c1284f 100644
--- a/crates/planus-buffer-inspection/src/lib.rs
+++ b/crates/planus-buffer-inspection/src/lib.rs
@@ -219,6 +219,7 @@ pub struct OffsetObject<'a> {
 pub enum OffsetObjectKind<'a> {
     VTable(DeclarationIndex),
     Table(DeclarationIndex),
+    Struct(DeclarationIndex),
     Vector(&'a Type),
     UnionVectorTags {
         declaration: DeclarationIndex,
@@ -383,6 +384,10 @@ impl<'a> OffsetObject<'a> {
                 offset,
                 declaration,
             })),
+            OffsetObjectKind::Struct(declaration) => Ok(Object::Struct(StructObject {
+                offset,
+                declaration,
+            })),
             OffsetObjectKind::Vector(type_) => Ok(Object::Vector(VectorObject { offset, type_ })),
             OffsetObjectKind::UnionVector {
                 declaration,
@@ -416,6 +421,9 @@ impl<'a> OffsetObject<'a> {
             OffsetObjectKind::Table(index) => {
                 Cow::Owned(format!("&table {}", declarations.get_declaration(index).0))
             }
+            OffsetObjectKind::Struct(index) => {
+                Cow::Owned(format!("&struct {}", declarations.get_declaration(index).0))
+            }
             OffsetObjectKind::Vector(type_) => {
                 Cow::Owned(format!("&[{}]", declarations.format_type_kind(&type_.kind)))
             }
@@ -637,6 +645,9 @@ impl UnionObject {
                     TypeKind::Table(index) => OffsetObjectKind::Table(*index),
                     TypeKind::Vector(type_) => OffsetObjectKind::Vector(type_),
                     TypeKind::String => OffsetObjectKind::String,
+                    TypeKind::SimpleType(SimpleType::Struct(index)) => {
+                        OffsetObjectKind::Struct(*index)
+                    }
                     TypeKind::Array(_, _) | TypeKind::SimpleType(_) | TypeKind::Union(_) => {
                         panic!("Inconsistent declarations")
                     }
-- 
2.43.0


From 9fb9c90989f670a1701f453b696ab467be12d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 30/38] fix: the inspector shows the NONE tag of a union
 instead of panicking

---
 crates/planus-buffer-inspection/src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/planus-buffer-inspection/src/lib.rs b/crates/planus-buffer-inspection/src/lib.rs
index 0c1284f..6d3e8fd 100644
--- a/crates/planus-buffer-inspection/src/lib.rs
+++ b/crates/planus-buffer-inspection/src/lib.rs
@@ -279,10 +279,8 @@ impl UnionTagObject {
         buffer: &InspectableFlatbuffer<'a>,
     ) -> Result<Option<(&'a str, &'a UnionVariant)>> {
         let decl = self.resolve_declaration(buffer);
-        if let Some((k, v)) = decl
-            .variants
-            .get_index(self.tag_value(buffer)? as usize - 1)
-        {
+        let tag = self.tag_value(buffer)? as usize;
+        if let Some((k, v)) = tag.checked_sub(1).and_then(|i| decl.variants.get_index(i)) {
             Ok(Some((k, v)))
         } else {
             Ok(None)
@@ -670,7 +668,8 @@ impl UnionObject {
         buffer: &InspectableFlatbuffer<'a>,
     ) -> Result<Option<(&'a str, &'a UnionVariant)>> {
         let decl = self.resolve_declaration(buffer);
-        if let Some((k, v)) = decl.variants.get_index(self.tag as usize - 1) {
+        let tag = self.tag as usize;
+        if let Some((k, v)) = tag.checked_sub(1).and_then(|i| decl.variants.get_index(i)) {
             Ok(Some((k, v)))
         } else {
             Ok(None)
-- 
2.43.0


From c92edc1f9e554b6cb72252cb37b7d33aa4d7fd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:14 +0000
Subject: [PATCH 31/38] fix: the inspector accepts vtables with more fields
 than the schema

---
 crates/planus-buffer-inspection/src/children.rs | 8 ++++++--
 crates/planus-buffer-inspection/src/lib.rs      | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/planus-buffer-inspection/src/children.rs b/crates/planus-buffer-inspection/src/children.rs
index f0f6d50..a67c106 100644
--- a/crates/planus-buffer-inspection/src/children.rs
+++ b/crates/planus-buffer-inspection/src/children.rs
@@ -111,8 +111,12 @@ impl<'a> Children<'a> for TableObject {
             if offset == 0 {
                 continue;
             }
-            let (field_name, _field_decl, is_union_tag) =
-                decl.get_field_for_vtable_index(i as u32).unwrap();
+            let Some((field_name, _field_decl, is_union_tag)) =
+                decl.get_field_for_vtable_index(i as u32)
+            else {
+                // The writer knew a newer version of the schema
+                continue;
+            };
             let field_name = if is_union_tag {
                 Cow::Owned(format!("union_key[{field_name}]"))
             } else {
diff --git a/crates/planus-buffer-inspection/src/lib.rs b/crates/planus-buffer-inspection/src/lib.rs
index 6d3e8fd..a5be9a0 100644
--- a/crates/planus-buffer-inspection/src/lib.rs
+++ b/crates/planus-buffer-inspection/src/lib.rs
@@ -497,8 +497,12 @@ impl TableObject {
         };
 
         let offset = self.offset + object_offset as u32;
-        let (_field_name, field_decl, is_union_tag) =
-            decl.get_field_for_vtable_index(field_index).unwrap();
+        let Some((_field_name, field_decl, is_union_tag)) =
+            decl.get_field_for_vtable_index(field_index)
+        else {
+            // The writer knew a newer version of the schema
+            return Ok(None);
+        };
         let object = match field_decl.type_.kind {
             TypeKind::Table(declaration) => Object::Offset(OffsetObject {
                 offset,
-- 
2.43.0


From 826233ff5e1f6f61ccfe29826ed94d4b2547729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:16 +0000
Subject: [PATCH 32/38] fix: name vtable entries in the inspector after the
 fields that use them

---
 .../planus-buffer-inspection/src/children.rs  | 22 +++++++------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/crates/planus-buffer-inspection/src/children.rs b/crates/planus-buffer-inspection/src/children.rs
index a67c106..53db3e0 100644
--- a/crates/planus-buffer-inspection/src/children.rs
+++ b/crates/planus-buffer-inspection/src/children.rs
@@ -70,21 +70,15 @@ impl<'a> Children<'a> for VTableObject {
                 1 => callback(Some(Cow::Borrowed("#table_size")), object),
                 n => {
                     let n = n - 2;
-                    if let Some((k, v)) = decl.fields.get_index(n) {
-                        if matches!(v.type_.kind, TypeKind::Union(_)) {
-                            callback(Some(Cow::Owned(format!("offset[union_tag[{k}]]"))), object)
-                        } else {
-                            callback(Some(Cow::Owned(format!("offset[{k}]"))), object)
+                    let name = match decl.get_field_for_vtable_index(n as u32) {
+                        Some((k, _v, true)) => format!("offset[union_tag[{k}]]"),
+                        Some((k, v, false)) if matches!(v.type_.kind, TypeKind::Union(_)) => {
+                            format!("offset[union[{k}]]")
                         }
-                    } else if let Some((k, _v)) = decl
-                        .fields
-                        .get_index(n - 1)
-                        .filter(|(_k, v)| matches!(v.type_.kind, TypeKind::Union(_)))
-                    {
-                        callback(Some(Cow::Owned(format!("offset[union[{k}]]"))), object)
-                    } else {
-                        callback(Some(Cow::Owned(format!("offset[{n}]"))), object)
-                    }
+                        Some((k, _v, false)) => format!("offset[{k}]"),
+                        None => format!("offset[{n}]"),
+                    };
+                    callback(Some(Cow::Owned(name)), object)
                 }
             }
         }
-- 
2.43.0


From 904274a46b7fd1503485ea2f99fc2ab0a7da55ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:03 +0000
Subject: [PATCH 33/38] fix: go to offset in the inspector ignores enter
 without an offset

---
 crates/planus-inspector/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/planus-inspector/src/lib.rs b/crates/planus-inspector/src/lib.rs
index 7ae8af6..5638f84 100644
--- a/crates/planus-inspector/src/lib.rs
+++ b/crates/planus-inspector/src/lib.rs
@@ -634,7 +634,9 @@ impl<'a> Inspector<'a> {
                     input.push(c.to_ascii_lowercase());
                 }
                 KeyCode::Enter => {
-                    let addr = usize::from_str_radix(input, 16).unwrap();
+                    let Ok(addr) = usize::from_str_radix(input, 16) else {
+                        return Some(modal_state);
+                    };
                     self.view_stack.push(self.view_state.clone());
                     self.update_byte_pos(addr);
                     self.active_window = ActiveWindow::HexView;
-- 
2.43.0


From 878cd43e1cac4fba8f3a90599f37629a499c3977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:38 +0000
Subject: [PATCH 34/38] fix: the inspector draws on small terminals instead of
 panicking

---
 crates/planus-inspector/src/lib.rs | 2 +-
 crates/planus-inspector/src/ui.rs  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/planus-inspector/src/lib.rs b/crates/planus-inspector/src/lib.rs
index 5638f84..f1894c2 100644
--- a/crates/planus-inspector/src/lib.rs
+++ b/crates/planus-inspector/src/lib.rs
@@ -73,7 +73,7 @@ impl HexViewState {
     }
 
     pub fn update_for_area(&mut self, buffer_len: usize, byte_index: usize, area: Rect) {
-        let remaining_width = area.width as usize - self.max_offset_hex_digits - 2;
+        let remaining_width = (area.width as usize).saturating_sub(self.max_offset_hex_digits + 2);
         let eight_groups = (remaining_width + 1) / 25;
         self.line_size = eight_groups * 8;
 
diff --git a/crates/planus-inspector/src/ui.rs b/crates/planus-inspector/src/ui.rs
index 88f0101..5ec0a1f 100644
--- a/crates/planus-inspector/src/ui.rs
+++ b/crates/planus-inspector/src/ui.rs
@@ -273,7 +273,8 @@ impl<'a> ViewState<'a> {
         if let Some(info_view_data) = &mut self.info_view_data {
             if area.height <= 4 {
                 info_view_data.first_line_shown = info_view_data.first_line_shown.clamp(
-                    (info_view_data.lines.index() + 1).saturating_sub(inner_area.height as usize),
+                    (info_view_data.lines.index() + 1)
+                        .saturating_sub(inner_area.height.max(1) as usize),
                     info_view_data.lines.index(),
                 );
             } else {
@@ -667,7 +668,7 @@ impl Widget for ObjectViewWidget<'_> {
                     area.left() + line.indentation as u16,
                     area.top() + line_index as u16,
                     &line.line,
-                    area.width as usize - line.indentation,
+                    (area.width as usize).saturating_sub(line.indentation),
                     style,
                 );
 
-- 
2.43.0


From cac48cb0722b1cd38936eea702cf39e2ac115437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:39 +0000
Subject: [PATCH 35/38] fix: the preview of an interpretation in the inspector
 starts at its selected line

---
 crates/planus-inspector/src/ui.rs | 41 +++++++++++++++++--------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/crates/planus-inspector/src/ui.rs b/crates/planus-inspector/src/ui.rs
index 5ec0a1f..ce5e29c 100644
--- a/crates/planus-inspector/src/ui.rs
+++ b/crates/planus-inspector/src/ui.rs
@@ -271,18 +271,8 @@ impl<'a> ViewState<'a> {
         let inner_area = block.inner(area);
 
         if let Some(info_view_data) = &mut self.info_view_data {
-            if area.height <= 4 {
-                info_view_data.first_line_shown = info_view_data.first_line_shown.clamp(
-                    (info_view_data.lines.index() + 1)
-                        .saturating_sub(inner_area.height.max(1) as usize),
-                    info_view_data.lines.index(),
-                );
-            } else {
-                info_view_data.first_line_shown = info_view_data.first_line_shown.clamp(
-                    (info_view_data.lines.index() + 2).saturating_sub(inner_area.height as usize),
-                    info_view_data.lines.index().saturating_sub(1),
-                );
-            }
+            info_view_data.first_line_shown =
+                info_view_data.first_line_for_height(inner_area.height as usize);
         }
 
         let widget = ObjectViewWidget::new(self.info_view_data.as_ref(), is_active).block(block);
@@ -609,6 +599,20 @@ impl<'a> ObjectViewWidget<'a> {
     }
 }
 
+impl InfoViewData<'_> {
+    /// The first line to show for the current line to be visible
+    fn first_line_for_height(&self, height: usize) -> usize {
+        let index = self.lines.index();
+        if height <= 2 {
+            self.first_line_shown
+                .clamp((index + 1).saturating_sub(height.max(1)), index)
+        } else {
+            self.first_line_shown
+                .clamp((index + 2).saturating_sub(height), index.saturating_sub(1))
+        }
+    }
+}
+
 impl Widget for ObjectViewWidget<'_> {
     fn render(mut self, area: Rect, buf: &mut Buffer) {
         let area = match self.block.take() {
@@ -625,20 +629,19 @@ impl Widget for ObjectViewWidget<'_> {
 
         if let Some(info_view_data) = &self.info_view_data {
             let selected_line = info_view_data.lines.cur();
+            let first_line_shown = info_view_data.first_line_for_height(area.height as usize);
             let mut inner_area = area;
 
             inner_area.x += selected_line.indentation as u16;
             inner_area.width =
                 (inner_area.width as usize).saturating_sub(selected_line.indentation) as u16;
 
-            let first_selected_line = selected_line
-                .start_line_index
-                .max(info_view_data.first_line_shown)
-                - info_view_data.first_line_shown;
+            let first_selected_line =
+                selected_line.start_line_index.max(first_line_shown) - first_line_shown;
             let last_selected_line = selected_line
                 .end_line_index
-                .min(info_view_data.first_line_shown + area.height as usize - 1)
-                - info_view_data.first_line_shown;
+                .min(first_line_shown + area.height as usize - 1)
+                - first_line_shown;
             inner_area.y += first_selected_line as u16;
             inner_area.height =
                 (inner_area.height as usize).saturating_sub(first_selected_line) as u16;
@@ -654,7 +657,7 @@ impl Widget for ObjectViewWidget<'_> {
                 .lines
                 .iter()
                 .enumerate()
-                .skip(info_view_data.first_line_shown)
+                .skip(first_line_shown)
                 .enumerate()
                 .take(area.height as usize)
             {
-- 
2.43.0


From 97f067d459e95a26904696897960624e4ea0ac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:39 +0000
Subject: [PATCH 36/38] fix: the list of interpretations in the inspector
 scrolls instead of panicking

---
 crates/planus-inspector/src/ui.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/planus-inspector/src/ui.rs b/crates/planus-inspector/src/ui.rs
index ce5e29c..bf981ed 100644
--- a/crates/planus-inspector/src/ui.rs
+++ b/crates/planus-inspector/src/ui.rs
@@ -777,7 +777,17 @@ impl Widget for TreeStateWidget<'_, '_> {
             return;
         }
 
-        for (i, line) in self.tree_state.lines.iter().enumerate() {
+        let first_line_shown =
+            (self.tree_state.lines.index() + 1).saturating_sub(area.height as usize);
+        for (line_index, (i, line)) in self
+            .tree_state
+            .lines
+            .iter()
+            .enumerate()
+            .skip(first_line_shown)
+            .enumerate()
+            .take(area.height as usize)
+        {
             let style = if i == self.tree_state.lines.index() {
                 CURSOR_STYLE
             } else {
@@ -792,9 +802,9 @@ impl Widget for TreeStateWidget<'_, '_> {
 
             buf.set_stringn(
                 area.left() + 2 * line.indent_level as u16,
-                area.top() + i as u16,
+                area.top() + line_index as u16,
                 format!("{}{suffix}", line.node.text),
-                area.width as usize - line.indent_level,
+                (area.width as usize).saturating_sub(2 * line.indent_level),
                 style,
             );
         }
-- 
2.43.0


From a3b35432c473d661b4b77e7781b37b0fd9bb8216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 37/38] fix: the digit c in go to offset of the inspector
 leaves the interpretation alone

---
 crates/planus-inspector/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/planus-inspector/src/lib.rs b/crates/planus-inspector/src/lib.rs
index f1894c2..23c71ee 100644
--- a/crates/planus-inspector/src/lib.rs
+++ b/crates/planus-inspector/src/lib.rs
@@ -448,7 +448,7 @@ impl<'a> Inspector<'a> {
                 self.should_quit = true;
                 false
             }
-            KeyCode::Char('c') => {
+            KeyCode::Char('c') if !matches!(self.modal, Some(ModalState::GoToByte { .. })) => {
                 if let Some(info_view_data) = &mut self.view_state.info_view_data {
                     info_view_data.set_interpretation_index(
                         &self.object_mapping,
-- 
2.43.0


From d855be7ec174ded26ec96905187dc015e83a08de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 38/38] fix: report errors for union variants whose type cannot
 be printed without source

---
 crates/planus-translation/src/ast_convert.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/planus-translation/src/ast_convert.rs b/crates/planus-translation/src/ast_convert.rs
index f0a913d..8fcfe2e 100644
--- a/crates/planus-translation/src/ast_convert.rs
+++ b/crates/planus-translation/src/ast_convert.rs
@@ -918,7 +918,8 @@ impl CstConverter<'_> {
         } else {
             let mut type_name = String::new();
             // TODO: figure out if we should keep maintaining that entire pretty printer or do something simpler
-            let mut printer = PrettyPrinter::new(&mut type_name, "");
+            let source = self.ctx.get_source(self.schema.file_id);
+            let mut printer = PrettyPrinter::new(&mut type_name, source);
             printer.write_type(&variant.type_).unwrap();
             let default_docstring =
                 format!("The variant of type `{type_name}` in the union `{parent_ident}`",);
-- 
2.43.0

