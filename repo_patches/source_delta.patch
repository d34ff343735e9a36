From b0e6f61aeba3fcc9d338d172a7ef76ae8c4a18f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 01/17] fix: keep null-namespace types out of the enclosing
 namespace in JSON output

A named type without a namespace (for example one imported from an .avsc
file) was written without a `namespace` key inside a namespaced protocol
or record, so readers placed it in the enclosing namespace, where it could
also collide with another type. Write an explicit empty namespace, as
Java's Schema.Name.writeName does, and resolve its own references from the
null namespace.
---
 src/model/json.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/model/json.rs b/src/model/json.rs
index f715cf3..4ce44aa 100644
--- a/src/model/json.rs
+++ b/src/model/json.rs
@@ -55,7 +55,7 @@ pub fn protocol_to_json(protocol: &Protocol) -> Value {
     // Build a lookup table from all named types in the protocol's type list.
     // This includes nested types inside records/fields that were registered
     // in the schema registry.
-    let lookup = build_lookup(&protocol.types, protocol.namespace.as_deref());
+    let lookup = build_lookup(&protocol.types, None);
 
     let mut known_names = HashSet::new();
     let mut obj = Map::new();
@@ -214,10 +214,14 @@ fn named_type_preamble(
     // Special case: when there's no enclosing namespace (standalone .avsc),
     // treat an empty-string namespace the same as None — Java normalizes
     // empty namespace to null, so `writeName()` omits it.
-    if namespace != enclosing_namespace
-        && let Some(ns) = namespace
-        && !(ns.is_empty() && enclosing_namespace.is_none())
-    {
+    //
+    // The reverse also matters: a type in the null namespace nested inside a
+    // namespaced context must carry an explicit empty `namespace`, or readers
+    // would place it in the enclosing namespace.
+    let namespace = namespace.filter(|ns| !ns.is_empty());
+    let enclosing_namespace = enclosing_namespace.filter(|ns| !ns.is_empty());
+    if namespace != enclosing_namespace {
+        let ns = namespace.unwrap_or_default();
         obj.insert("namespace".to_string(), Value::String(ns.to_string()));
     }
     if let Some(doc) = doc {
@@ -304,7 +308,7 @@ pub fn schema_to_json(
             };
             let fields_json: Vec<Value> = fields
                 .iter()
-                .map(|f| field_to_json(f, known_names, ns.or(enclosing_namespace), lookup))
+                .map(|f| field_to_json(f, known_names, ns, lookup))
                 .collect();
             obj.insert("fields".to_string(), Value::Array(fields_json));
             finish_named_type(&mut obj, properties, aliases, ns);
-- 
2.43.0


From 48131143d35d0443ead2afdf5a025aa29170cba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 02/17] fix: do not change the base type or drop attributes of
 imported logical types

A JSON schema such as {"type": "string", "logicalType": "date"} was
imported as an int, and `precision`/`scale` attributes of non-decimal
logical types (or an unusable decimal `scale`) were dropped. Apply a
logical type only to its own base type and otherwise keep the attributes
as properties, as the IDL reader and the Java implementation do.
---
 src/import.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index ee5f676..c23440d 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -686,7 +686,15 @@ fn parse_annotated_primitive(
         let scale_u64 = obj.get("scale").and_then(|s| s.as_u64());
         let scale = scale_u64.and_then(|v| u32::try_from(v).ok());
 
-        if let Some(lt) = parse_logical_type(logical, precision, scale) {
+        // A logical type only applies to its own base type. On any other base
+        // (e.g. `date` on `string`), or with an unusable `scale`, it is ignored
+        // and kept as a property, so that the underlying type is never changed
+        // and no attribute is lost.
+        let scale_usable = scale.is_some() || !obj.contains_key("scale");
+        if let Some(lt) = parse_logical_type(logical, precision, scale)
+            && lt.expected_base_type() == str_to_primitive_type(prim)
+            && (scale_usable || !matches!(lt, LogicalType::Decimal { .. }))
+        {
             // For decimal, validate that precision >= 1 (the shared helper
             // returns None when precision is absent, but we also need to
             // reject explicit zero).
@@ -696,11 +704,15 @@ fn parse_annotated_primitive(
                 miette::bail!("decimal precision must be >= 1");
             }
 
-            let properties =
-                collect_extra_properties(obj, &["type", "logicalType", "precision", "scale"]);
+            // `precision` and `scale` are only structural for `decimal`.
+            let known_keys: &[&str] = if matches!(lt, LogicalType::Decimal { .. }) {
+                &["type", "logicalType", "precision", "scale"]
+            } else {
+                &["type", "logicalType"]
+            };
             return Ok(AvroSchema::Logical {
                 logical_type: lt,
-                properties,
+                properties: collect_extra_properties(obj, known_keys),
             });
         }
 
-- 
2.43.0


From 66ab1ce2dc7ba57a25794ff7de454431b44023db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 03/17] fix: report invalid type names in imported JSON instead
 of dropping the type

Registration failures other than duplicates were swallowed, so a type with
an invalid name in an imported .avsc or .avpr file silently disappeared
from the output.
---
 src/import.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index c23440d..529b1ed 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -282,12 +282,19 @@ fn flatten_schema_inner(schema: AvroSchema, collected: &mut Vec<AvroSchema>) ->
 /// registers nested types as it encounters them.
 ///
 /// Duplicate registrations are silently ignored (the first definition wins),
-/// matching Java's behavior for imports.
-fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) {
+/// matching Java's behavior for imports. Any other registration failure (such
+/// as an invalid type name) is an error: the type must not silently disappear.
+fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) -> Result<()> {
     let (types, _top_level) = flatten_schema(schema);
     for t in types {
-        let _ = registry.register(t);
+        let already_registered = t
+            .full_name()
+            .is_some_and(|full_name| registry.lookup(&full_name).is_some());
+        if !already_registered {
+            registry.register(t).map_err(|e| miette::miette!("{e}"))?;
+        }
     }
+    Ok(())
 }
 
 // ==============================================================================
@@ -324,7 +331,12 @@ pub fn import_protocol(
                     path.display()
                 )
             })?;
-            flatten_and_register(schema, registry);
+            flatten_and_register(schema, registry).map_err(|e| {
+                miette::miette!(
+                    "register type at index {i} in protocol `{}`: {e}",
+                    path.display()
+                )
+            })?;
         }
     }
 
@@ -363,7 +375,8 @@ pub fn import_schema(path: &Path, registry: &mut SchemaRegistry) -> Result<()> {
 
     let schema = json_to_schema(&json, None)
         .map_err(|e| miette::miette!("parse schema from `{}`: {e}", path.display()))?;
-    flatten_and_register(schema, registry);
+    flatten_and_register(schema, registry)
+        .map_err(|e| miette::miette!("register schema from `{}`: {e}", path.display()))?;
 
     Ok(())
 }
-- 
2.43.0


From fde7b0ddd4c4c2eaf157db34e05638a3580930d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 04/17] fix: register named types defined inline in messages of
 an imported protocol

A record, enum, fixed or error defined inside a message of an imported
.avpr file was not registered, so references to it from anywhere else were
rejected as undefined names. Flatten messages like the protocol's types.
---
 src/import.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/import.rs b/src/import.rs
index 529b1ed..d006adb 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -286,6 +286,31 @@ fn flatten_schema_inner(schema: AvroSchema, collected: &mut Vec<AvroSchema>) ->
 /// as an invalid type name) is an error: the type must not silently disappear.
 fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) -> Result<()> {
     let (types, _top_level) = flatten_schema(schema);
+    register_flattened(types, registry)
+}
+
+/// Flatten all schemas in an imported message (parameters, response, and
+/// errors), registering the named types they define inline so that the rest of
+/// the protocol can refer to them.
+fn flatten_and_register_message(
+    message: &mut Message,
+    registry: &mut SchemaRegistry,
+) -> Result<()> {
+    let mut types = Vec::new();
+    let schemas = message
+        .request
+        .iter_mut()
+        .map(|field| &mut field.schema)
+        .chain(std::iter::once(&mut message.response))
+        .chain(message.errors.iter_mut().flatten());
+    for schema in schemas {
+        *schema = flatten_schema_inner(std::mem::replace(schema, AvroSchema::Null), &mut types);
+    }
+    register_flattened(types, registry)
+}
+
+/// Register already-flattened named types, skipping those already registered.
+fn register_flattened(types: Vec<AvroSchema>, registry: &mut SchemaRegistry) -> Result<()> {
     for t in types {
         let already_registered = t
             .full_name()
@@ -343,12 +368,18 @@ pub fn import_protocol(
     // Extract messages.
     if let Some(msgs) = json.get("messages").and_then(|m| m.as_object()) {
         for (name, msg_json) in msgs {
-            let message = json_to_message(msg_json, default_namespace).map_err(|e| {
+            let mut message = json_to_message(msg_json, default_namespace).map_err(|e| {
                 miette::miette!(
                     "parse message `{name}` in protocol `{}`: {e}",
                     path.display()
                 )
             })?;
+            flatten_and_register_message(&mut message, registry).map_err(|e| {
+                miette::miette!(
+                    "register types of message `{name}` in protocol `{}`: {e}",
+                    path.display()
+                )
+            })?;
             messages.insert(name.clone(), message);
         }
     }
-- 
2.43.0


From 3aef47bf9113140694d4a90d99d1019b0e7a0933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 05/17] fix: list ignored union annotations in a reproducible
 order

The warning text depended on HashMap iteration order, so identical inputs
produced different warnings.
---
 src/reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index c9f6196..7a2b715 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -3262,7 +3262,9 @@ fn walk_full_type<'input>(
     // drops them without feedback. Nullable unions (`type?` syntax) are fine
     // because annotations are applied to the non-null branch instead.
     if !props.properties.is_empty() && is_non_nullable_union(&schema) {
-        let keys: Vec<&str> = props.properties.keys().map(|k| k.as_str()).collect();
+        let mut keys: Vec<&str> = props.properties.keys().map(|k| k.as_str()).collect();
+        // The map has no stable order; keep the warning text reproducible.
+        keys.sort_unstable();
         src.warnings
             .borrow_mut()
             .push(Warning::annotations_dropped_on_union(&keys, src, ctx));
-- 
2.43.0


From f0d02242ca83add4c619779e34b626afbecc3d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 06/17] fix: reject annotations that override a logical type
 keyword's attributes

`@precision(5) decimal(9, 2)` silently produced precision 5, and
`@logicalType("x") date` replaced the logical type. Reject them with the
error that Java's JsonProperties.addProp raises.
---
 src/reader.rs | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 7a2b715..73f000f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -3256,6 +3256,17 @@ fn walk_full_type<'input>(
         ));
     }
 
+    // `@logicalType("x") date` or `@precision(5) decimal(9, 2)` would replace
+    // what the type keyword itself says. Java throws "Can't overwrite
+    // property: {name}" in this case.
+    if let Some(name) = overwritten_logical_attribute(&schema, &props.properties) {
+        return Err(make_diagnostic(
+            src,
+            ctx,
+            format!("Can't overwrite property: {name}"),
+        ));
+    }
+
     // Warn when annotations are placed on a non-nullable union type. These
     // annotations cannot be attached to the union schema (Avro unions don't
     // carry top-level properties) and will be silently discarded. Java also
@@ -4247,6 +4258,41 @@ fn is_type_reference(schema: &AvroSchema) -> bool {
     }
 }
 
+/// If `properties` would give an attribute of a logical type keyword (such as
+/// `decimal(9, 2)`) a different value, return the name of that attribute. Looks
+/// through nullable unions, like `apply_properties`.
+fn overwritten_logical_attribute(
+    schema: &AvroSchema,
+    properties: &HashMap<String, Value>,
+) -> Option<&'static str> {
+    match schema {
+        AvroSchema::Union {
+            types,
+            is_nullable_type: true,
+        } => types
+            .iter()
+            .find_map(|t| overwritten_logical_attribute(t, properties)),
+        AvroSchema::Logical { logical_type, .. } => {
+            let differs = |name: &str, value: Value| {
+                properties.get(name).is_some_and(|given| *given != value)
+            };
+            if differs("logicalType", Value::from(logical_type.name())) {
+                return Some("logicalType");
+            }
+            if let LogicalType::Decimal { precision, scale } = logical_type {
+                if differs("precision", Value::from(*precision)) {
+                    return Some("precision");
+                }
+                if differs("scale", Value::from(*scale)) {
+                    return Some("scale");
+                }
+            }
+            None
+        }
+        _ => None,
+    }
+}
+
 /// Returns true when the schema is a union that `apply_properties` cannot
 /// attach annotations to. Nullable two-member unions (`type?` syntax) are
 /// excluded because `apply_properties` correctly forwards annotations to
-- 
2.43.0


From 35a0ef0b13d6aa5f58aed4ddd362576a394542bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:45 +0000
Subject: [PATCH 07/17] fix: report undefined names at a reproducible position

Undefined names were deduplicated before being sorted, in an order that
depends on HashMap iteration over the messages, so the reported position
of a name used several times varied between runs.
---
 src/compiler.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 3148bf3..58a5f43 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -1036,21 +1036,26 @@ fn validate_all_references(
         }
     }
 
-    // Deduplicate by name while preserving source order (first occurrence
-    // wins). We use a `HashSet` to track which names we've already seen,
-    // retaining the entry whose span appears earliest in the file.
+    // Sort by source span offset so the first error in the file is reported
+    // first. References without a span (from JSON imports) sort to the end.
+    // Ties are broken by name: messages are stored in a `HashMap`, so the
+    // collection order above is not reproducible.
+    unresolved.sort_by(|(a_name, a_span), (b_name, b_span)| {
+        let position = |span: &Option<SpanWithSource>| {
+            span.as_ref()
+                .map_or((true, "", 0), |s| (false, s.name, s.offset))
+        };
+        (position(a_span), a_name).cmp(&(position(b_span), b_name))
+    });
+
+    // Deduplicate by name, retaining the entry whose span appears earliest.
+    // This must come after sorting. We use a `HashSet` to track which names
+    // we've already seen.
     {
         let mut seen = HashSet::new();
         unresolved.retain(|(name, _)| seen.insert(name.clone()));
     }
 
-    // Sort by source span offset so the first error in the file is reported
-    // first. References without a span (from JSON imports) sort to the end.
-    unresolved.sort_by_key(|(_, span)| {
-        span.as_ref()
-            .map_or(("", usize::MAX), |s| (s.name, s.offset))
-    });
-
     if unresolved.is_empty() {
         return Ok(());
     }
-- 
2.43.0


From 1fe1cc536623cc04d3a3486b537e6ddd8bf2d2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 08/17] fix: reject field names and enum symbols that are not
 valid Avro names

The grammar allows dashes and dots in identifiers, so `int my-field;` or
`enum E { a.b }` compiled to JSON that no Avro implementation can parse.
Apply the name check already used for type names.
---
 src/reader.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 73f000f..7bb8191 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -3009,6 +3009,7 @@ fn walk_variable<'input>(
         .identifier()
         .ok_or_else(|| make_diagnostic(src, ctx, "missing variable name"))?;
     let field_name = identifier_text(&name_ctx);
+    check_avro_name(&field_name, src, &*name_ctx)?;
 
     // Walk the variable-level schema properties (e.g. @order, @aliases on a
     // specific variable rather than on the field type).
@@ -3072,6 +3073,27 @@ fn walk_variable<'input>(
     })
 }
 
+/// Reject a field name or enum symbol that is not a valid Avro name. The grammar
+/// also allows dashes and dots in identifiers, but Avro does not, and Java's
+/// `Schema.validateName` rejects them.
+fn check_avro_name<'input>(
+    name: &str,
+    src: &SourceInfo,
+    ctx: &impl antlr4rust::parser_rule_context::ParserRuleContext<'input>,
+) -> Result<()> {
+    if is_valid_avro_name(name) {
+        return Ok(());
+    }
+    Err(make_diagnostic(
+        src,
+        ctx,
+        format!(
+            "invalid Avro name: `{name}` (names must start with a letter or underscore, \
+             followed by letters, digits, or underscores)"
+        ),
+    ))
+}
+
 // ==========================================================================
 // Enum
 // ==========================================================================
@@ -3110,6 +3132,7 @@ fn walk_enum<'input>(
     for sym_ctx in ctx.enumSymbol_all() {
         if let Some(sym_name_ctx) = sym_ctx.identifier() {
             let sym_name = identifier_text(&sym_name_ctx);
+            check_avro_name(&sym_name, src, &*sym_name_ctx)?;
             if !seen_symbols.insert(sym_name.clone()) {
                 return Err(make_diagnostic(
                     src,
-- 
2.43.0


From 16671b71761cf29025a32b4f9c88728d1a25d15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 09/17] fix: scale hexadecimal floats without intermediate
 overflow or underflow

`0x1p-1074` evaluated to 0 and `0x0.00001p1040` to Infinity although both
values are representable doubles.
---
 src/reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 7bb8191..85c367d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4189,7 +4189,10 @@ fn parse_hex_float_mantissa_and_exponent(hex_body: &str, original: &str) -> Resu
             as f64
     };
 
-    Ok(mantissa * 2.0_f64.powi(exponent))
+    // Scale in two steps: `2^exponent` can overflow or underflow on its own even
+    // when the product is representable (e.g. `0x1p-1074`).
+    let half = exponent / 2;
+    Ok(mantissa * 2.0_f64.powi(half) * 2.0_f64.powi(exponent - half))
 }
 
 /// Parse an integer literal text into a u32 (for fixed size, decimal precision/scale).
-- 
2.43.0


From 1797078a4bf1552aa1c8fe71964f24e1456f4295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 10/17] fix: validate defaults of fields whose type is a
 forward reference

---
 src/compiler.rs | 118 ++++++++++++++++++++++++++++--------------------
 1 file changed, 70 insertions(+), 48 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 58a5f43..3dc4735 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -30,7 +30,7 @@ use crate::error::{ParseDiagnostic, SpanWithSource};
 use crate::import::{ImportContext, import_protocol, import_schema};
 use crate::model::json::{build_lookup, protocol_to_json, schema_to_json};
 use crate::model::protocol::Message;
-use crate::model::schema::validate_record_field_defaults;
+use crate::model::schema::{AvroSchema, validate_record_field_defaults};
 use crate::reader::{DeclItem, IdlFile, ImportKind, parse_idl_named};
 use crate::resolve::SchemaRegistry;
 
@@ -575,6 +575,9 @@ struct CompileContext {
     /// references from `.avsc`/`.avpr` imports, which lack source spans of
     /// their own.
     json_import_spans: Vec<(String, Option<SpanWithSource>)>,
+    /// Declaration items of all imported IDL files, kept so that field defaults
+    /// can be validated once every type is registered.
+    imported_items: Vec<DeclItem>,
 }
 
 impl CompileContext {
@@ -585,6 +588,7 @@ impl CompileContext {
             messages: HashMap::new(),
             warnings: Vec::new(),
             json_import_spans: Vec::new(),
+            imported_items: Vec::new(),
         }
     }
 }
@@ -642,6 +646,14 @@ fn parse_and_resolve(
     // warnings are appended to `ctx.warnings` by `process_decl_items`.
     process_decl_items(&decl_items, ctx, input_dir)?;
 
+    // Now that every type is registered, also validate the defaults of fields
+    // whose type was still a forward reference when their record was registered.
+    for item in decl_items.iter().chain(&ctx.imported_items) {
+        if let DeclItem::Type(schema, span, field_spans) = item {
+            validate_field_defaults(schema, span, field_spans, &ctx.registry)?;
+        }
+    }
+
     // For protocol files, rebuild the types list from the registry (which now
     // includes imported types in declaration order) and prepend imported
     // messages before the protocol's own messages.
@@ -691,53 +703,7 @@ fn process_decl_items(
 
                 // Validate field defaults for Reference-typed fields now that
                 // the registry contains all previously-registered types.
-                // All validation errors are reported at once so users can fix
-                // multiple bad defaults in one edit cycle.
-                let errors = validate_record_field_defaults(schema, |full_name| {
-                    ctx.registry.lookup(full_name).cloned()
-                });
-                if errors.is_empty() {
-                    continue;
-                }
-                let type_name = schema.full_name().unwrap_or(Cow::Borrowed("<unknown>"));
-                let mut error_iter = errors.into_iter();
-                let (first_field, first_reason) = error_iter.next().expect("errors is non-empty");
-
-                // Build related diagnostics from subsequent errors.
-                let related: Vec<ParseDiagnostic> = error_iter
-                    .filter_map(|(field_name, reason)| {
-                        let msg = format!(
-                            "Invalid default for field `{field_name}` in `{type_name}`: {reason}"
-                        );
-                        let effective_span = field_spans.get(&field_name).copied().or(*span);
-                        effective_span.map(|span| ParseDiagnostic {
-                            span,
-                            message: msg,
-                            label: None,
-                            help: None,
-                            related: Vec::new(),
-                        })
-                    })
-                    .collect();
-
-                let first_msg = format!(
-                    "Invalid default for field `{first_field}` in `{type_name}`: {first_reason}"
-                );
-                // Prefer the per-field span (from the variable declaration)
-                // over the type-level span (from the record keyword), so the
-                // diagnostic highlights the offending field, not the record.
-                let effective_span = field_spans.get(&first_field).copied().or(*span);
-                if let Some(span) = effective_span {
-                    return Err(ParseDiagnostic {
-                        span,
-                        message: first_msg,
-                        label: None,
-                        help: None,
-                        related,
-                    }
-                    .into());
-                }
-                return Err(miette::miette!("{first_msg}"));
+                validate_field_defaults(schema, span, field_spans, &ctx.registry)?;
             }
         }
     }
@@ -745,6 +711,61 @@ fn process_decl_items(
     Ok(())
 }
 
+/// Validate the field defaults of a declared type, skipping fields whose type
+/// refers to a type that is not registered (yet).
+///
+/// All validation errors are reported at once so users can fix multiple bad
+/// defaults in one edit cycle.
+fn validate_field_defaults(
+    schema: &AvroSchema,
+    span: &Option<SpanWithSource>,
+    field_spans: &HashMap<String, SpanWithSource>,
+    registry: &SchemaRegistry,
+) -> miette::Result<()> {
+    let errors =
+        validate_record_field_defaults(schema, |full_name| registry.lookup(full_name).cloned());
+    if errors.is_empty() {
+        return Ok(());
+    }
+    let type_name = schema.full_name().unwrap_or(Cow::Borrowed("<unknown>"));
+    let mut error_iter = errors.into_iter();
+    let (first_field, first_reason) = error_iter.next().expect("errors is non-empty");
+
+    // Build related diagnostics from subsequent errors.
+    let related: Vec<ParseDiagnostic> = error_iter
+        .filter_map(|(field_name, reason)| {
+            let msg =
+                format!("Invalid default for field `{field_name}` in `{type_name}`: {reason}");
+            let effective_span = field_spans.get(&field_name).copied().or(*span);
+            effective_span.map(|span| ParseDiagnostic {
+                span,
+                message: msg,
+                label: None,
+                help: None,
+                related: Vec::new(),
+            })
+        })
+        .collect();
+
+    let first_msg =
+        format!("Invalid default for field `{first_field}` in `{type_name}`: {first_reason}");
+    // Prefer the per-field span (from the variable declaration)
+    // over the type-level span (from the record keyword), so the
+    // diagnostic highlights the offending field, not the record.
+    let effective_span = field_spans.get(&first_field).copied().or(*span);
+    if let Some(span) = effective_span {
+        return Err(ParseDiagnostic {
+            span,
+            message: first_msg,
+            label: None,
+            help: None,
+            related,
+        }
+        .into());
+    }
+    Err(miette::miette!("{first_msg}"))
+}
+
 /// Resolve a single import entry, registering schemas and merging messages
 /// into the current protocol.
 fn resolve_single_import(
@@ -833,6 +854,7 @@ fn resolve_single_import(
             process_decl_items(&nested_decl_items, ctx, &import_dir).with_context(|| {
                 format!("resolve nested imports from `{}`", resolved_path.display())
             })?;
+            ctx.imported_items.extend(nested_decl_items);
         }
     }
 
-- 
2.43.0


From 2bfe1bd2a632522be9850510080247f5f7975540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 11/17] fix: keep an unusable decimal scale annotation instead
 of dropping it

---
 src/reader.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 85c367d..3adbcec 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4456,6 +4456,15 @@ fn try_promote_logical_type(schema: AvroSchema) -> AvroSchema {
                 return AvroSchema::AnnotatedPrimitive { kind, properties };
             }
 
+            // A `scale` that is present but unusable (e.g. negative) makes the
+            // `decimal` invalid: leave it as-is rather than drop the attribute.
+            if matches!(logical_type, LogicalType::Decimal { .. })
+                && scale.is_none()
+                && properties.contains_key("scale")
+            {
+                return AvroSchema::AnnotatedPrimitive { kind, properties };
+            }
+
             // Remove the consumed keys from properties so they are not
             // duplicated in the serialized output.
             properties.remove("logicalType");
-- 
2.43.0


From 798f06ce96b0d934d55093ab5f87138a43536e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 12/17] fix: forget earlier warnings when the input file cannot
 be read

---
 src/compiler.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler.rs b/src/compiler.rs
index 3dc4735..6bd9794 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -92,6 +92,10 @@ impl IdlCompiler {
     /// `Idl2Schemata::extract(path)`. It reads the file, determines the parent
     /// directory and canonical path, then delegates to [`compile`](Self::compile).
     fn compile_file(&mut self, path: &Path) -> miette::Result<CompileOutput> {
+        // A failure to read the file must not leave the previous call's
+        // warnings behind.
+        self.accumulated_warnings.clear();
+
         let source = fs::read_to_string(path)
             .map_err(|e| miette::miette!("{e}"))
             .with_context(|| format!("read {}", path.display()))?;
-- 
2.43.0


From 34608917dc9156d40991c2d0b475e461fabf90e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 13/17] fix: keep warnings of earlier files when a directory
 extraction fails

---
 src/compiler.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 6bd9794..1d81945 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -513,7 +513,16 @@ impl Idl2Schemata {
         }
 
         for avdl_path in &avdl_paths {
-            let compiled = self.inner.compile_file(avdl_path)?;
+            let compiled = match self.inner.compile_file(avdl_path) {
+                Ok(compiled) => compiled,
+                Err(e) => {
+                    // Keep the warnings of the files before this one available
+                    // via `drain_warnings()`.
+                    all_warnings.append(&mut self.inner.accumulated_warnings);
+                    self.inner.accumulated_warnings = all_warnings;
+                    return Err(e);
+                }
+            };
             let output = Self::extract_impl(compiled);
             all_schemas.extend(output.schemas);
             all_warnings.extend(output.warnings);
-- 
2.43.0


From ace7579980140a203eaef504e31f203616712de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 14/17] fix: measure edit distance in characters, not bytes

A name with a multi-byte character made the row buffer wider than the
number of characters compared, so the result was read from a cell that
was never filled and an unrelated name was suggested.
---
 src/suggest.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/suggest.rs b/src/suggest.rs
index 5c3ac83..f834aea 100644
--- a/src/suggest.rs
+++ b/src/suggest.rs
@@ -11,8 +11,8 @@
 /// (O(min(m, n)) space). This is sufficient for identifiers and type names,
 /// which are short.
 pub(crate) fn levenshtein(a: &str, b: &str) -> usize {
-    let a_len = a.len();
-    let b_len = b.len();
+    let a_len = a.chars().count();
+    let b_len = b.chars().count();
     if a_len == 0 {
         return b_len;
     }
-- 
2.43.0


From 048172f8575e5bc4de1f8daa2561f9680fce0a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 15/17] fix: reject imported records without fields and enums
 without symbols

A JSON record whose fields attribute is missing or is not an array was
imported as an empty record, and such an enum as an empty enum, instead
of being reported as malformed like a fixed without its size.
---
 src/import.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index d006adb..c87d7ed 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -545,19 +545,18 @@ fn parse_record(
     // Fields inherit the record's namespace (or the default) for resolving
     // unqualified type references.
     let ns_for_fields = namespace.as_deref().or(default_namespace);
-    let fields = if let Some(Value::Array(fields_json)) = obj.get("fields") {
-        fields_json
-            .iter()
-            .enumerate()
-            .map(|(i, f)| {
-                json_to_field(f, ns_for_fields).map_err(|e| {
-                    miette::miette!("parse field at index {i} of record `{name}`: {e}")
-                })
-            })
-            .collect::<Result<Vec<_>>>()?
-    } else {
-        vec![]
-    };
+    let fields_json = obj
+        .get("fields")
+        .and_then(|f| f.as_array())
+        .ok_or_else(|| miette::miette!("{type_str} `{name}` missing 'fields'"))?;
+    let fields = fields_json
+        .iter()
+        .enumerate()
+        .map(|(i, f)| {
+            json_to_field(f, ns_for_fields)
+                .map_err(|e| miette::miette!("parse field at index {i} of record `{name}`: {e}"))
+        })
+        .collect::<Result<Vec<_>>>()?;
 
     let aliases = extract_string_array(obj.get("aliases"));
 
@@ -596,6 +595,9 @@ fn parse_enum(
         .get("doc")
         .and_then(|d| d.as_str())
         .map(|s| s.to_string());
+    if !obj.get("symbols").is_some_and(|s| s.is_array()) {
+        return Err(miette::miette!("enum `{name}` missing 'symbols'"));
+    }
     let symbols = extract_string_array(obj.get("symbols"));
     let default = obj
         .get("default")
-- 
2.43.0


From 5e9dd218559c75f3707f0cc69f810486a4c63ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:24 +0000
Subject: [PATCH 16/17] fix: place lexer diagnostics on character boundaries

The lexer counts columns in characters; treating them as bytes put the
label of an unrecognised token in the wrong place, possibly inside a
character, on a line with non-ASCII text. Labels of a single position now
cover that whole character.
---
 src/compiler.rs |  2 +-
 src/reader.rs   | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 1d81945..7e7a6d2 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -332,7 +332,7 @@ impl Idl {
             // via `drain_warnings()`.
             self.inner.accumulated_warnings = warnings;
 
-            let span_len = source.len().min(1);
+            let span_len = source.chars().next().map_or(0, char::len_utf8);
             return Err(ParseDiagnostic {
                 span: SpanWithSource::new(0, span_len, source_name, source),
                 message: "IDL file contains neither a protocol nor a schema declaration"
diff --git a/src/reader.rs b/src/reader.rs
index 3adbcec..a0cace1 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1820,7 +1820,12 @@ fn line_col_to_byte_offset(source: &str, line: isize, column: isize) -> usize {
     let mut offset = 0;
     for (i, src_line) in source.split('\n').enumerate() {
         if i == target_line {
-            return offset + (column as usize).min(src_line.len());
+            // ANTLR counts columns in characters, not bytes.
+            return offset
+                + src_line
+                    .char_indices()
+                    .nth(column as usize)
+                    .map_or(src_line.len(), |(byte, _)| byte);
         }
         offset += src_line.len() + 1; // +1 for the newline character
     }
@@ -1873,7 +1878,9 @@ impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for CollectingErrorListener {
                 // the byte offset from (line, column) using the source text.
                 if let Some(src) = self.source {
                     let offset = line_col_to_byte_offset(src, line, column);
-                    (offset, 1)
+                    // Underline the whole character, however many bytes it has.
+                    let length = src[offset..].chars().next().map_or(1, char::len_utf8);
+                    (offset, length)
                 } else {
                     (0, 0)
                 }
-- 
2.43.0


From b7cddb8142fdb0cde73193cfefbdaa0c4d0f8614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 17/17] fix: drop the previous call's warnings when the current
 directory is gone

---
 src/compiler.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler.rs b/src/compiler.rs
index 7e7a6d2..3fe9d53 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -121,6 +121,10 @@ impl IdlCompiler {
         source: &'static str,
         name: &'static str,
     ) -> miette::Result<CompileOutput> {
+        // A failure to determine the current directory must not leave the
+        // previous call's warnings behind.
+        self.accumulated_warnings.clear();
+
         let cwd = std::env::current_dir()
             .map_err(|e| miette::miette!("{e}"))
             .context("determine current directory")?;
-- 
2.43.0

