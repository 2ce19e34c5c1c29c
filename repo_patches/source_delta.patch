From 1b4f7baaa94191f618701f59794f4594070eb918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 01/31] fix: canonicalize_nodes moves the metadata along with
 its node

---
 hugr-core/src/hugr.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hugr-core/src/hugr.rs b/hugr-core/src/hugr.rs
index d5d62c6..41ab14b 100644
--- a/hugr-core/src/hugr.rs
+++ b/hugr-core/src/hugr.rs
@@ -383,6 +383,7 @@ impl Hugr {
             if pg_target != pg_source {
                 self.graph.swap_nodes(pg_target, pg_source);
                 self.op_types.swap(pg_target, pg_source);
+                self.metadata.swap(pg_target, pg_source);
                 self.hierarchy.swap_nodes(pg_target, pg_source);
                 rekey(source, pg_target.into());
             }
-- 
2.43.0


From 83548484558c36e822a4cc7a530dda378d47af01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 02/31] fix: remove_node clears the metadata of the removed
 node

---
 hugr-core/src/hugr/hugrmut.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index 3a1564c..7dced65 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -486,6 +486,7 @@ impl HugrMut for Hugr {
         panic_invalid_non_entrypoint(self, node);
         self.hierarchy.remove(node.into_portgraph());
         self.graph.remove_node(node.into_portgraph());
+        self.metadata.take(node.into_portgraph());
         self.op_types.take(node.into_portgraph())
     }
 
-- 
2.43.0


From b0b6949f5731f7915e3c661f318286250302871b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 03/31] fix: substituting in a tuple type gives a tuple type

---
 hugr-core/src/types/type_param.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-core/src/types/type_param.rs b/hugr-core/src/types/type_param.rs
index b539e55..9690c09 100644
--- a/hugr-core/src/types/type_param.rs
+++ b/hugr-core/src/types/type_param.rs
@@ -446,7 +446,7 @@ impl Term {
             Term::BytesType => self.clone(),
             Term::FloatType => self.clone(),
             Term::ListType(item_type) => Term::new_list_type(item_type.substitute(t)),
-            Term::TupleType(item_types) => Term::new_list_type(item_types.substitute(t)),
+            Term::TupleType(item_types) => Term::new_tuple_type(item_types.substitute(t)),
             Term::StaticType => self.clone(),
             Term::ConstType(ty) => Term::new_const(ty.substitute1(t)),
         }
-- 
2.43.0


From 26f809feb57a005fee631f41f4d71394948c5b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 04/31] fix: the binary model reader keeps the constraints of
 alias symbols

---
 hugr-model/src/v0/binary/read.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hugr-model/src/v0/binary/read.rs b/hugr-model/src/v0/binary/read.rs
index ae44ebb..111db3f 100644
--- a/hugr-model/src/v0/binary/read.rs
+++ b/hugr-model/src/v0/binary/read.rs
@@ -173,10 +173,10 @@ fn read_operation<'a>(
         Which::AliasDefn(reader) => {
             let symbol = reader.get_symbol()?;
             let value = table::TermId(reader.get_value());
-            table::Operation::DefineAlias(read_symbol(bump, symbol, Some(&[]))?, value)
+            table::Operation::DefineAlias(read_symbol(bump, symbol, None)?, value)
         }
         Which::AliasDecl(reader) => {
-            table::Operation::DeclareAlias(read_symbol(bump, reader?, Some(&[]))?)
+            table::Operation::DeclareAlias(read_symbol(bump, reader?, None)?)
         }
         Which::ConstructorDecl(reader) => {
             table::Operation::DeclareConstructor(read_symbol(bump, reader?, None)?)
-- 
2.43.0


From cc42186ec02585a3b68a60b7714ccbeafc4845de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 05/31] fix: a term is a supertype of itself for constant types
 and concatenations

---
 hugr-core/src/types/type_param.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hugr-core/src/types/type_param.rs b/hugr-core/src/types/type_param.rs
index 9690c09..9c9b55e 100644
--- a/hugr-core/src/types/type_param.rs
+++ b/hugr-core/src/types/type_param.rs
@@ -212,6 +212,13 @@ impl Term {
             (Term::Tuple(es1), Term::Tuple(es2)) => {
                 es1.len() == es2.len() && es1.iter().zip(es2).all(|(e1, e2)| e1.is_supertype(e2))
             }
+            (Term::ListConcat(es1), Term::ListConcat(es2)) => {
+                es1.len() == es2.len() && es1.iter().zip(es2).all(|(e1, e2)| e1.is_supertype(e2))
+            }
+            (Term::TupleConcat(es1), Term::TupleConcat(es2)) => {
+                es1.len() == es2.len() && es1.iter().zip(es2).all(|(e1, e2)| e1.is_supertype(e2))
+            }
+            (Term::ConstType(t1), Term::ConstType(t2)) => t1 == t2,
             _ => false,
         }
     }
-- 
2.43.0


From b2ff2141fddbac163e066d20c14cfd2988830988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 06/31] fix: a failing IdentityInsertion leaves the hugr
 unchanged

---
 hugr-core/src/hugr/patch/insert_identity.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/patch/insert_identity.rs b/hugr-core/src/hugr/patch/insert_identity.rs
index 725a0dd..2913c3d 100644
--- a/hugr-core/src/hugr/patch/insert_identity.rs
+++ b/hugr-core/src/hugr/patch/insert_identity.rs
@@ -94,13 +94,13 @@ impl<N: HugrNode> PatchHugrMut for IdentityInsertion<N> {
             .single_linked_output(self.post_node, self.post_port)
             .expect("Value kind input can only have one connection.");
 
-        h.disconnect(self.post_node, self.post_port);
         let parent = h
             .get_parent(self.post_node)
             .ok_or(IdentityInsertionError::InvalidParentNode)?;
         if !OpTag::DataflowParent.is_superset(h.get_optype(parent).tag()) {
             return Err(IdentityInsertionError::InvalidParentNode);
         }
+        h.disconnect(self.post_node, self.post_port);
         let new_node = h.add_node_with_parent(parent, Noop(ty));
         h.connect(pre_node, pre_port, new_node, 0);
 
-- 
2.43.0


From 938e17ba06e1cefdbcf8c63d1edeb6aeed5b725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 07/31] fix: IdentityInsertion::verify checks what applying it
 needs

---
 hugr-core/src/hugr/patch/insert_identity.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/hugr/patch/insert_identity.rs b/hugr-core/src/hugr/patch/insert_identity.rs
index 2913c3d..dff69a0 100644
--- a/hugr-core/src/hugr/patch/insert_identity.rs
+++ b/hugr-core/src/hugr/patch/insert_identity.rs
@@ -52,7 +52,7 @@ impl<N: HugrNode> PatchVerification for IdentityInsertion<N> {
     type Error = IdentityInsertionError;
     type Node = N;
 
-    fn verify(&self, _h: &impl HugrView) -> Result<(), IdentityInsertionError> {
+    fn verify(&self, h: &impl HugrView<Node = N>) -> Result<(), IdentityInsertionError> {
         /*
         Assumptions:
         1. Value kind inputs can only have one connection.
@@ -63,7 +63,17 @@ impl<N: HugrNode> PatchVerification for IdentityInsertion<N> {
         3. post_port is input.
          */
 
-        unimplemented!()
+        if !h.contains_node(self.post_node) {
+            return Err(IdentityInsertionError::InvalidNode());
+        }
+        let kind = h.get_optype(self.post_node).port_kind(self.post_port);
+        if !matches!(kind, Some(EdgeKind::Value(_))) {
+            return Err(IdentityInsertionError::InvalidPortKind(kind));
+        }
+        match h.get_parent(self.post_node) {
+            Some(parent) if OpTag::DataflowParent.is_superset(h.get_optype(parent).tag()) => Ok(()),
+            _ => Err(IdentityInsertionError::InvalidParentNode),
+        }
     }
 
     #[inline]
@@ -85,6 +95,7 @@ impl<N: HugrNode> PatchHugrMut for IdentityInsertion<N> {
         self,
         h: &mut impl HugrMut<Node = N>,
     ) -> Result<Self::Outcome, IdentityInsertionError> {
+        self.verify(h)?;
         let kind = h.get_optype(self.post_node).port_kind(self.post_port);
         let Some(EdgeKind::Value(ty)) = kind else {
             return Err(IdentityInsertionError::InvalidPortKind(kind));
-- 
2.43.0


From 1cea706f34b933b9a32bd795dc0f03d69e84d9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 08/31] fix: InsertCut reports the errors of verify instead of
 panicking

---
 hugr-core/src/hugr/patch/insert_cut.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hugr-core/src/hugr/patch/insert_cut.rs b/hugr-core/src/hugr/patch/insert_cut.rs
index 518c75c..0e03bfa 100644
--- a/hugr-core/src/hugr/patch/insert_cut.rs
+++ b/hugr-core/src/hugr/patch/insert_cut.rs
@@ -135,6 +135,7 @@ impl PatchHugrMut for InsertCut<Node> {
         self,
         h: &mut impl HugrMut<Node = Node>,
     ) -> Result<Self::Outcome, InsertCutError> {
+        self.verify(h)?;
         let insert_res = h.insert_hugr(self.parent, self.insertion);
         let inserted_entrypoint = insert_res.inserted_entrypoint;
         for (i, (target, port)) in self.targets.into_iter().enumerate() {
-- 
2.43.0


From b8b50c172e88ed90655ea35b5139d1b0d809d5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 09/31] fix: report errors when finishing a zstd-compressed
 envelope

---
 hugr-core/src/envelope/writer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/envelope/writer.rs b/hugr-core/src/envelope/writer.rs
index 9754741..bdf6f6a 100644
--- a/hugr-core/src/envelope/writer.rs
+++ b/hugr-core/src/envelope/writer.rs
@@ -29,8 +29,9 @@ pub(super) fn write_envelope<'h>(
     match config.zstd {
         #[cfg(feature = "zstd")]
         Some(zstd) => {
-            let writer = zstd::Encoder::new(writer, zstd.level())?.auto_finish();
-            write_impl(writer, hugrs, extensions, config)?;
+            let mut encoder = zstd::Encoder::new(writer, zstd.level())?;
+            write_impl(&mut encoder, hugrs, extensions, config)?;
+            encoder.finish()?;
         }
         #[cfg(not(feature = "zstd"))]
         Some(_) => return Err(WriteErrorInner::ZstdUnsupported.into()),
-- 
2.43.0


From 640622bdb5726a46add00a01f58d97a231609fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 10/31] fix: check the used extension versions of a module once
 it is resolved

---
 hugr-core/src/envelope/reader.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/envelope/reader.rs b/hugr-core/src/envelope/reader.rs
index 803b5b6..ea4e154 100644
--- a/hugr-core/src/envelope/reader.rs
+++ b/hugr-core/src/envelope/reader.rs
@@ -137,14 +137,16 @@ impl<R: BufRead> EnvelopeReader<R> {
             let desc = desc.get_or_insert_default();
             desc.load_used_extensions_generator(module)
                 .map_err(ExtensionBreakingError::from)?;
-            if let Some(used_exts) = &mut desc.used_extensions_generator {
-                check_breaking_extensions(module.extensions(), used_exts.drain(..))?;
-            }
 
             module
                 .resolve_extension_defs(&self.registry)
                 .inspect_err(|err| Self::handle_resolution_error(desc, err))?;
 
+            // The extensions used by the module are only known once it is resolved.
+            if let Some(used_exts) = &desc.used_extensions_generator {
+                check_breaking_extensions(module.extensions(), used_exts.iter().cloned())?;
+            }
+
             // overwrite the description with the actual module read,
             // cheap so ok to repeat.
             desc.load_from_hugr(&module);
-- 
2.43.0


From 033cbbc46fff16422ec43aa775d1ec005545c7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 11/31] fix: resolve the extensions packaged with a textual
 model among themselves

---
 hugr-core/src/envelope/reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/envelope/reader.rs b/hugr-core/src/envelope/reader.rs
index ea4e154..13fbc42 100644
--- a/hugr-core/src/envelope/reader.rs
+++ b/hugr-core/src/envelope/reader.rs
@@ -224,7 +224,11 @@ impl<R: BufRead> EnvelopeReader<R> {
                 .into_iter::<Vec<Extension>>()
                 .next()
                 .unwrap_or(Ok(vec![]))?;
-            ExtensionRegistry::new(extra_extensions.into_iter().map(std::sync::Arc::new))
+            ExtensionRegistry::new_with_extension_resolution(
+                extra_extensions,
+                &WeakExtensionRegistry::from(&self.registry),
+            )
+            .map_err(crate::extension::ExtensionRegistryLoadError::from)?
         } else {
             ExtensionRegistry::new([])
         };
-- 
2.43.0


From ff8bf2baea66ceb712c6428879872289e76de74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 12/31] fix: export function constants with the links and nodes
 of their own hugr

---
 hugr-core/src/export.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hugr-core/src/export.rs b/hugr-core/src/export.rs
index 9b0dc2a..3920777 100644
--- a/hugr-core/src/export.rs
+++ b/hugr-core/src/export.rs
@@ -1085,6 +1085,8 @@ impl<'a> Context<'a> {
             Value::Function { hugr } => {
                 let outer_hugr = std::mem::replace(&mut self.hugr, hugr);
                 let outer_node_to_id = std::mem::take(&mut self.node_to_id);
+                let outer_id_to_node = std::mem::take(&mut self.id_to_node);
+                let outer_links = std::mem::replace(&mut self.links, Links::new(hugr));
 
                 let region = match hugr.entrypoint_optype() {
                     OpType::DFG(_) => {
@@ -1093,6 +1095,8 @@ impl<'a> Context<'a> {
                     _ => panic!("Value::Function root must be a DFG"),
                 };
 
+                self.links = outer_links;
+                self.id_to_node = outer_id_to_node;
                 self.node_to_id = outer_node_to_id;
                 self.hugr = outer_hugr;
 
-- 
2.43.0


From 616d3aa39b8ce08f8e19317279c090b0cd8cc1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 13/31] fix: the textual model parses the numbered variables it
 prints

---
 hugr-model/src/v0/ast/hugr.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-model/src/v0/ast/hugr.pest b/hugr-model/src/v0/ast/hugr.pest
index d960cb3..92651a8 100644
--- a/hugr-model/src/v0/ast/hugr.pest
+++ b/hugr-model/src/v0/ast/hugr.pest
@@ -103,7 +103,7 @@ term = {
 }
 
 term_wildcard   = @{ "_" ~ !(ASCII_ALPHANUMERIC | "_" | "-") }
-term_var        =  { "?" ~ identifier }
+term_var        = @{ "?" ~ identifier_rest+ }
 term_apply      =  { symbol_name | ("(" ~ symbol_name ~ term* ~ ")") }
 term_list       =  { "[" ~ part* ~ "]" }
 term_tuple      =  { "(" ~ "tuple" ~ part* ~ ")" }
-- 
2.43.0


From 9a216191b08fe8d98ca90b01e4113683645d9615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 14/31] fix: the textual model parses the function constants it
 prints

---
 hugr-model/src/v0/ast/hugr.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-model/src/v0/ast/hugr.pest b/hugr-model/src/v0/ast/hugr.pest
index 92651a8..b5733bf 100644
--- a/hugr-model/src/v0/ast/hugr.pest
+++ b/hugr-model/src/v0/ast/hugr.pest
@@ -107,7 +107,7 @@ term_var        = @{ "?" ~ identifier_rest+ }
 term_apply      =  { symbol_name | ("(" ~ symbol_name ~ term* ~ ")") }
 term_list       =  { "[" ~ part* ~ "]" }
 term_tuple      =  { "(" ~ "tuple" ~ part* ~ ")" }
-term_const_func =  { "(" ~ "fn" ~ term ~ ")" }
+term_const_func =  { "(" ~ "fn" ~ region ~ ")" }
 
 part         = { spliced_term | term }
 spliced_term = { term ~ "..." }
-- 
2.43.0


From a47251e769e6310c0c502da217eee744d40c4943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:19 +0000
Subject: [PATCH 15/31] fix: the textual model parses floats printed with an
 exponent

---
 hugr-model/src/v0/ast/hugr.pest | 3 ++-
 hugr-model/src/v0/ast/print.rs  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/hugr-model/src/v0/ast/hugr.pest b/hugr-model/src/v0/ast/hugr.pest
index b5733bf..d92dbcc 100644
--- a/hugr-model/src/v0/ast/hugr.pest
+++ b/hugr-model/src/v0/ast/hugr.pest
@@ -39,7 +39,8 @@ literal_string_unicode = @{ "\\u" ~ "{" ~ ASCII_HEX_DIGIT+ ~ "}" }
 
 literal_nat   = @{ (ASCII_DIGIT)+ }
 literal_bytes =  { "(" ~ "bytes" ~ base64_string ~ ")" }
-literal_float = @{ ("+" | "-")? ~ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT+ ~ ("e" ~ ("+" | "-")? ~ ASCII_DIGIT+)? }
+literal_float = @{ ("+" | "-")? ~ ASCII_DIGIT+ ~ (("." ~ ASCII_DIGIT+ ~ float_exponent?) | float_exponent) }
+float_exponent = @{ "e" ~ ("+" | "-")? ~ ASCII_DIGIT+ }
 
 base64_string = { "\"" ~ (ASCII_ALPHANUMERIC | "+" | "/")* ~ "="* ~ "\"" }
 
diff --git a/hugr-model/src/v0/ast/print.rs b/hugr-model/src/v0/ast/print.rs
index 071146d..e7e2652 100644
--- a/hugr-model/src/v0/ast/print.rs
+++ b/hugr-model/src/v0/ast/print.rs
@@ -169,7 +169,7 @@ fn print_literal<'a>(printer: &mut Printer<'a>, literal: &'a Literal) {
             printer.parens_exit();
         }
         Literal::Float(float) => {
-            // The debug representation of a float always includes a decimal point.
+            // The debug representation of a float always includes a decimal point or an exponent.
             printer.text(format!("{:.?}", float.into_inner()));
         }
     }
-- 
2.43.0


From 277171af89cda83bd6647998e1dd100a181ccf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 16/31] fix: resolve and collect extensions in the parameters
 of polymorphic signatures and type definitions, alias definitions and
 variable declarations

---
 .../src/extension/resolution/extension.rs     | 16 +++---
 hugr-core/src/extension/resolution/types.rs   | 47 ++++++++++++-----
 .../src/extension/resolution/types_mut.rs     | 51 ++++++++++++-------
 hugr-core/src/extension/type_def.rs           |  5 ++
 hugr-core/src/types/poly_func.rs              |  5 ++
 hugr-core/src/types/type_param.rs             | 10 ++++
 6 files changed, 96 insertions(+), 38 deletions(-)

diff --git a/hugr-core/src/extension/resolution/extension.rs b/hugr-core/src/extension/resolution/extension.rs
index 05c0faf..309f954 100644
--- a/hugr-core/src/extension/resolution/extension.rs
+++ b/hugr-core/src/extension/resolution/extension.rs
@@ -9,7 +9,7 @@ use std::sync::Arc;
 
 use crate::extension::{Extension, ExtensionId, ExtensionRegistry, OpDef, SignatureFunc, TypeDef};
 
-use super::types_mut::resolve_signature_exts;
+use super::types_mut::{resolve_poly_func_exts, resolve_term_exts};
 use super::{ExtensionResolutionError, WeakExtensionRegistry};
 
 impl ExtensionRegistry {
@@ -96,6 +96,10 @@ pub(super) fn resolve_typedef_exts(
         }
     }
 
+    for param in def.params_mut() {
+        resolve_term_exts(None, param, extensions, used_extensions)?;
+    }
+
     Ok(())
 }
 
@@ -146,14 +150,14 @@ pub(super) fn resolve_signature_func_exts(
     extensions: &WeakExtensionRegistry,
     used_extensions: &mut WeakExtensionRegistry,
 ) -> Result<(), ExtensionResolutionError> {
-    let signature_body = match signature {
-        SignatureFunc::PolyFuncType(p) => p.body_mut(),
-        SignatureFunc::CustomValidator(v) => v.poly_func_mut().body_mut(),
-        SignatureFunc::MissingValidateFunc(p) => p.body_mut(),
+    let signature = match signature {
+        SignatureFunc::PolyFuncType(p) => p,
+        SignatureFunc::CustomValidator(v) => v.poly_func_mut(),
+        SignatureFunc::MissingValidateFunc(p) => p,
         // Binary computation functions should always return valid types.
         SignatureFunc::CustomFunc(_) | SignatureFunc::MissingComputeFunc => {
             return Ok(());
         }
     };
-    resolve_signature_exts(None, signature_body, extensions, used_extensions)
+    resolve_poly_func_exts(None, signature, extensions, used_extensions)
 }
diff --git a/hugr-core/src/extension/resolution/types.rs b/hugr-core/src/extension/resolution/types.rs
index 45866d5..beabbb7 100644
--- a/hugr-core/src/extension/resolution/types.rs
+++ b/hugr-core/src/extension/resolution/types.rs
@@ -11,7 +11,7 @@ use crate::Node;
 use crate::extension::{ExtensionRegistry, ExtensionSet};
 use crate::ops::{DataflowOpTrait, OpType, Value};
 use crate::types::type_row::TypeRowBase;
-use crate::types::{FuncTypeBase, MaybeRV, SumType, Term, TypeBase, TypeEnum};
+use crate::types::{FuncTypeBase, MaybeRV, PolyFuncTypeBase, SumType, Term, TypeBase, TypeEnum};
 
 /// Collects every extension used to define the types in an operation.
 ///
@@ -42,17 +42,13 @@ pub(crate) fn collect_op_types_extensions(
             }
             collect_signature_exts(&ext.signature(), &mut used, &mut missing);
         }
-        OpType::FuncDefn(f) => {
-            collect_signature_exts(f.signature().body(), &mut used, &mut missing)
-        }
-        OpType::FuncDecl(f) => {
-            collect_signature_exts(f.signature().body(), &mut used, &mut missing)
-        }
+        OpType::FuncDefn(f) => collect_poly_func_exts(f.signature(), &mut used, &mut missing),
+        OpType::FuncDecl(f) => collect_poly_func_exts(f.signature(), &mut used, &mut missing),
         OpType::Const(c) => collect_value_exts(&c.value, &mut used, &mut missing),
         OpType::Input(inp) => collect_type_row_exts(&inp.types, &mut used, &mut missing),
         OpType::Output(out) => collect_type_row_exts(&out.types, &mut used, &mut missing),
         OpType::Call(c) => {
-            collect_signature_exts(c.func_sig.body(), &mut used, &mut missing);
+            collect_poly_func_exts(&c.func_sig, &mut used, &mut missing);
             collect_signature_exts(&c.instantiation, &mut used, &mut missing);
             for arg in &c.type_args {
                 collect_term_exts(arg, &mut used, &mut missing);
@@ -61,7 +57,7 @@ pub(crate) fn collect_op_types_extensions(
         OpType::CallIndirect(c) => collect_signature_exts(&c.signature, &mut used, &mut missing),
         OpType::LoadConstant(lc) => collect_type_exts(&lc.datatype, &mut used, &mut missing),
         OpType::LoadFunction(lf) => {
-            collect_signature_exts(lf.func_sig.body(), &mut used, &mut missing);
+            collect_poly_func_exts(&lf.func_sig, &mut used, &mut missing);
             collect_signature_exts(&lf.instantiation, &mut used, &mut missing);
             for arg in &lf.type_args {
                 collect_term_exts(arg, &mut used, &mut missing);
@@ -107,8 +103,11 @@ pub(crate) fn collect_op_types_extensions(
         OpType::Case(case) => {
             collect_signature_exts(&case.signature, &mut used, &mut missing);
         }
-        // Ignore optypes that do not store a signature.
-        OpType::Module(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_) => {}
+        OpType::AliasDefn(alias) => {
+            collect_type_exts(&alias.definition, &mut used, &mut missing);
+        }
+        // Ignore optypes that do not store any types.
+        OpType::Module(_) | OpType::AliasDecl(_) => {}
     }
 
     if missing.is_empty() {
@@ -121,6 +120,26 @@ pub(crate) fn collect_op_types_extensions(
     }
 }
 
+/// Collect the Extension pointers in the [`CustomType`]s inside the parameters
+/// and the body of a polymorphic signature.
+///
+/// # Attributes
+///
+/// - `signature`: The signature to collect the extensions from.
+/// - `used_extensions`: A The registry where to store the used extensions.
+/// - `missing_extensions`: A set of `ExtensionId`s of which the
+///   `Weak<Extension>` pointer has been invalidated.
+fn collect_poly_func_exts<RV: MaybeRV>(
+    signature: &PolyFuncTypeBase<RV>,
+    used_extensions: &mut WeakExtensionRegistry,
+    missing_extensions: &mut ExtensionSet,
+) {
+    for param in signature.params() {
+        collect_term_exts(param, used_extensions, missing_extensions);
+    }
+    collect_signature_exts(signature.body(), used_extensions, missing_extensions);
+}
+
 /// Collect the Extension pointers in the [`CustomType`]s inside a signature.
 ///
 /// # Attributes
@@ -244,8 +263,10 @@ pub(super) fn collect_term_exts(
                 collect_term_exts(tuple, used_extensions, missing_extensions);
             }
         }
-        Term::Variable(_)
-        | Term::RuntimeType(_)
+        Term::Variable(var) => {
+            collect_term_exts(var.cached_decl(), used_extensions, missing_extensions);
+        }
+        Term::RuntimeType(_)
         | Term::StaticType
         | Term::BoundedNatType(_)
         | Term::StringType
diff --git a/hugr-core/src/extension/resolution/types_mut.rs b/hugr-core/src/extension/resolution/types_mut.rs
index 359241f..7cee0b9 100644
--- a/hugr-core/src/extension/resolution/types_mut.rs
+++ b/hugr-core/src/extension/resolution/types_mut.rs
@@ -10,7 +10,9 @@ use super::{ExtensionResolutionError, WeakExtensionRegistry};
 use crate::extension::ExtensionSet;
 use crate::ops::{OpType, Value};
 use crate::types::type_row::TypeRowBase;
-use crate::types::{CustomType, FuncTypeBase, MaybeRV, SumType, Term, TypeBase, TypeEnum};
+use crate::types::{
+    CustomType, FuncTypeBase, MaybeRV, PolyFuncTypeBase, SumType, Term, TypeBase, TypeEnum,
+};
 use crate::{Extension, Node};
 
 /// Replace the dangling extension pointer in the [`CustomType`]s inside an
@@ -35,20 +37,10 @@ pub fn resolve_op_types_extensions(
             resolve_signature_exts(node, ext.signature_mut(), extensions, used_extensions)?;
         }
         OpType::FuncDefn(f) => {
-            resolve_signature_exts(
-                node,
-                f.signature_mut().body_mut(),
-                extensions,
-                used_extensions,
-            )?;
+            resolve_poly_func_exts(node, f.signature_mut(), extensions, used_extensions)?;
         }
         OpType::FuncDecl(f) => {
-            resolve_signature_exts(
-                node,
-                f.signature_mut().body_mut(),
-                extensions,
-                used_extensions,
-            )?;
+            resolve_poly_func_exts(node, f.signature_mut(), extensions, used_extensions)?;
         }
         OpType::Const(c) => resolve_value_exts(node, &mut c.value, extensions, used_extensions)?,
         OpType::Input(inp) => {
@@ -58,7 +50,7 @@ pub fn resolve_op_types_extensions(
             resolve_type_row_exts(node, &mut out.types, extensions, used_extensions)?;
         }
         OpType::Call(c) => {
-            resolve_signature_exts(node, c.func_sig.body_mut(), extensions, used_extensions)?;
+            resolve_poly_func_exts(node, &mut c.func_sig, extensions, used_extensions)?;
             resolve_signature_exts(node, &mut c.instantiation, extensions, used_extensions)?;
             for arg in &mut c.type_args {
                 resolve_term_exts(node, arg, extensions, used_extensions)?;
@@ -71,7 +63,7 @@ pub fn resolve_op_types_extensions(
             resolve_type_exts(node, &mut lc.datatype, extensions, used_extensions)?;
         }
         OpType::LoadFunction(lf) => {
-            resolve_signature_exts(node, lf.func_sig.body_mut(), extensions, used_extensions)?;
+            resolve_poly_func_exts(node, &mut lf.func_sig, extensions, used_extensions)?;
             resolve_signature_exts(node, &mut lf.instantiation, extensions, used_extensions)?;
             for arg in &mut lf.type_args {
                 resolve_term_exts(node, arg, extensions, used_extensions)?;
@@ -119,12 +111,31 @@ pub fn resolve_op_types_extensions(
         OpType::Case(case) => {
             resolve_signature_exts(node, &mut case.signature, extensions, used_extensions)?;
         }
-        // Ignore optypes that do not store a signature.
-        OpType::Module(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_) => {}
+        OpType::AliasDefn(alias) => {
+            resolve_type_exts(node, &mut alias.definition, extensions, used_extensions)?;
+        }
+        // Ignore optypes that do not store any types.
+        OpType::Module(_) | OpType::AliasDecl(_) => {}
     }
     Ok(used.into_iter())
 }
 
+/// Update all weak Extension pointers in the [`CustomType`]s inside the
+/// parameters and the body of a polymorphic signature.
+///
+/// Adds the extensions used in the signature to the `used_extensions` registry.
+pub(super) fn resolve_poly_func_exts<RV: MaybeRV>(
+    node: Option<Node>,
+    signature: &mut PolyFuncTypeBase<RV>,
+    extensions: &WeakExtensionRegistry,
+    used_extensions: &mut WeakExtensionRegistry,
+) -> Result<(), ExtensionResolutionError> {
+    for param in signature.params_mut() {
+        resolve_term_exts(node, param, extensions, used_extensions)?;
+    }
+    resolve_signature_exts(node, signature.body_mut(), extensions, used_extensions)
+}
+
 /// Update all weak Extension pointers in the [`CustomType`]s inside a signature.
 ///
 /// Adds the extensions used in the signature to the `used_extensions` registry.
@@ -237,8 +248,10 @@ pub(super) fn resolve_term_exts(
         Term::TupleType(item_types) => {
             resolve_term_exts(node, item_types.as_mut(), extensions, used_extensions)?;
         }
-        Term::Variable(_)
-        | Term::RuntimeType(_)
+        Term::Variable(var) => {
+            resolve_term_exts(node, var.cached_decl_mut(), extensions, used_extensions)?;
+        }
+        Term::RuntimeType(_)
         | Term::StaticType
         | Term::BoundedNatType(_)
         | Term::StringType
diff --git a/hugr-core/src/extension/type_def.rs b/hugr-core/src/extension/type_def.rs
index b848c75..c8029a4 100644
--- a/hugr-core/src/extension/type_def.rs
+++ b/hugr-core/src/extension/type_def.rs
@@ -184,6 +184,11 @@ impl TypeDef {
     pub(super) fn extension_mut(&mut self) -> &mut Weak<Extension> {
         &mut self.extension_ref
     }
+
+    /// Returns a mutable reference to the static parameters of the type def.
+    pub(super) fn params_mut(&mut self) -> &mut [TypeParam] {
+        &mut self.params
+    }
 }
 
 impl Extension {
diff --git a/hugr-core/src/types/poly_func.rs b/hugr-core/src/types/poly_func.rs
index 0769ef4..cf58366 100644
--- a/hugr-core/src/types/poly_func.rs
+++ b/hugr-core/src/types/poly_func.rs
@@ -151,6 +151,11 @@ impl<RV: MaybeRV> PolyFuncTypeBase<RV> {
     pub fn body_mut(&mut self) -> &mut FuncTypeBase<RV> {
         &mut self.body
     }
+
+    /// Returns a mutable reference to the type parameters.
+    pub(crate) fn params_mut(&mut self) -> &mut [TypeParam] {
+        &mut self.params
+    }
 }
 
 #[cfg(test)]
diff --git a/hugr-core/src/types/type_param.rs b/hugr-core/src/types/type_param.rs
index 9c9b55e..f8d3843 100644
--- a/hugr-core/src/types/type_param.rs
+++ b/hugr-core/src/types/type_param.rs
@@ -629,6 +629,16 @@ impl TermVar {
         self.idx
     }
 
+    /// The declaration of the variable that this instance was created with.
+    pub(crate) fn cached_decl(&self) -> &TypeParam {
+        &self.cached_decl
+    }
+
+    /// Mutable reference to the declaration of the variable.
+    pub(crate) fn cached_decl_mut(&mut self) -> &mut TypeParam {
+        &mut self.cached_decl
+    }
+
     /// Determines whether this represents a row variable; if so, returns
     /// the [`TypeBound`] of the individual types it might stand for.
     #[must_use]
-- 
2.43.0


From f9ea11bb80d650d5fd8a4b84a36f4039fba9483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 17/31] fix: hugr convert --compress without a level compresses
 at the default level

---
 hugr-cli/src/convert.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hugr-cli/src/convert.rs b/hugr-cli/src/convert.rs
index 6a9aa18..f68afd5 100644
--- a/hugr-cli/src/convert.rs
+++ b/hugr-cli/src/convert.rs
@@ -85,8 +85,11 @@ impl ConvertArgs {
         };
 
         // Configure compression
-        if let Some(level) = self.compress.then_some(self.compression_level).flatten() {
-            config = config.with_zstd(ZstdConfig::new(level));
+        if self.compress {
+            let zstd = self
+                .compression_level
+                .map_or_else(ZstdConfig::default_level, ZstdConfig::new);
+            config = config.with_zstd(zstd);
         }
 
         // Write the package with the requested format
-- 
2.43.0


From fe9a86f173d32cb5ddcf13e0f9b7bff01de25366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 18/31] fix: remove_node drops the node's metadata without an
 unused result

---
 hugr-core/src/hugr/hugrmut.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index 7dced65..3930bbb 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -486,7 +486,7 @@ impl HugrMut for Hugr {
         panic_invalid_non_entrypoint(self, node);
         self.hierarchy.remove(node.into_portgraph());
         self.graph.remove_node(node.into_portgraph());
-        self.metadata.take(node.into_portgraph());
+        self.metadata.remove(node.into_portgraph());
         self.op_types.take(node.into_portgraph())
     }
 
-- 
2.43.0


From 831e65921f42e5b9af27bbb59c8c2de2bf3057eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:51 +0000
Subject: [PATCH 19/31] fix: the partial order of partial sums agrees with
 their join

---
 hugr-passes/src/dataflow/partial_value.rs | 41 ++++++++++-------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/hugr-passes/src/dataflow/partial_value.rs b/hugr-passes/src/dataflow/partial_value.rs
index 3ca23fb..d2fafdf 100644
--- a/hugr-passes/src/dataflow/partial_value.rs
+++ b/hugr-passes/src/dataflow/partial_value.rs
@@ -267,33 +267,26 @@ impl<V: Clone, N: Clone> PartialSum<V, N> {
     }
 }
 
+impl<V: PartialEq, N: PartialEq + PartialOrd> PartialSum<V, N> {
+    /// Whether every variant of `self` is also possible in `other`, with at least as many
+    /// possibilities for each of its elements.
+    fn is_below(&self, other: &Self) -> bool {
+        self.0.iter().all(|(tag, row)| {
+            other.0.get(tag).is_some_and(|other_row| {
+                row.len() == other_row.len() && row.iter().zip(other_row).all(|(v, o)| v <= o)
+            })
+        })
+    }
+}
+
 impl<V: PartialEq, N: PartialEq + PartialOrd> PartialOrd for PartialSum<V, N> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        let max_key = self.0.keys().chain(other.0.keys()).copied().max().unwrap();
-        let (mut keys1, mut keys2) = (vec![0; max_key + 1], vec![0; max_key + 1]);
-        for k in self.0.keys() {
-            keys1[*k] = 1;
-        }
-
-        for k in other.0.keys() {
-            keys2[*k] = 1;
+        match (self.is_below(other), other.is_below(self)) {
+            (true, true) => Some(Ordering::Equal),
+            (true, false) => Some(Ordering::Less),
+            (false, true) => Some(Ordering::Greater),
+            (false, false) => None,
         }
-
-        Some(match keys1.cmp(&keys2) {
-            ord @ (Ordering::Greater | Ordering::Less) => ord,
-            Ordering::Equal => {
-                for (k, lhs) in &self.0 {
-                    let Some(rhs) = other.0.get(k) else {
-                        unreachable!()
-                    };
-                    let key_cmp = lhs.partial_cmp(rhs);
-                    if key_cmp != Some(Ordering::Equal) {
-                        return key_cmp;
-                    }
-                }
-                Ordering::Equal
-            }
-        })
     }
 }
 
-- 
2.43.0


From 70c972dacd1db7133a40f6199a403c58a63130d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:51 +0000
Subject: [PATCH 20/31] fix: equal partial sums have equal hashes

---
 hugr-passes/src/dataflow/partial_value.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hugr-passes/src/dataflow/partial_value.rs b/hugr-passes/src/dataflow/partial_value.rs
index d2fafdf..899fb38 100644
--- a/hugr-passes/src/dataflow/partial_value.rs
+++ b/hugr-passes/src/dataflow/partial_value.rs
@@ -298,7 +298,8 @@ impl<V: std::fmt::Debug, N: std::fmt::Debug> std::fmt::Debug for PartialSum<V, N
 
 impl<V: Hash, N: Hash> Hash for PartialSum<V, N> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for (k, v) in &self.0 {
+        // Equal sums must have equal hashes, whatever the iteration order of the map.
+        for (k, v) in self.0.iter().sorted_by_key(|(k, _)| **k) {
             k.hash(state);
             v.hash(state);
         }
-- 
2.43.0


From ce9176dae8e894970aca4d4da47ea587ee9aa939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 21/31] fix: inserting and linking Hugrs does not depend on
 hash iteration order

---
 hugr-core/src/hugr/hugrmut.rs |  3 ++-
 hugr-core/src/hugr/linking.rs | 50 ++++++++++++++++++++++-------------
 2 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index 3930bbb..2e3e8cd 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -550,7 +550,8 @@ impl HugrMut for Hugr {
         mut other: Hugr,
         root_parents: impl IntoIterator<Item = (Node, Self::Node)>,
     ) -> InsertForestResult<Node, Self::Node> {
-        let roots: HashMap<_, _> = root_parents.into_iter().collect();
+        // Ordered, so that the inserted nodes are always numbered the same way.
+        let roots: BTreeMap<_, _> = root_parents.into_iter().collect();
         for &subtree in roots.keys() {
             let mut n = subtree;
             while let Some(parent) = other.get_parent(n) {
diff --git a/hugr-core/src/hugr/linking.rs b/hugr-core/src/hugr/linking.rs
index f20c006..81cc366 100644
--- a/hugr-core/src/hugr/linking.rs
+++ b/hugr-core/src/hugr/linking.rs
@@ -1,8 +1,11 @@
 //! Directives and errors relating to linking Hugrs.
 
-use std::{collections::HashMap, fmt::Display};
+use std::{
+    collections::{BTreeMap, HashMap},
+    fmt::Display,
+};
 
-use itertools::Either;
+use itertools::{Either, Itertools};
 
 use crate::{
     Hugr, HugrView, Node,
@@ -40,15 +43,13 @@ pub trait HugrLinking: HugrMut {
         children: NodeLinkingDirectives<H::Node, Self::Node>,
     ) -> Result<InsertedForest<H::Node, Self::Node>, NodeLinkingError<H::Node, Self::Node>> {
         let transfers = check_directives(other, parent, &children)?;
-        let nodes =
-            parent
-                .iter()
-                .flat_map(|_| other.entry_descendants())
-                .chain(children.iter().flat_map(|(&ch, dirv)| match dirv {
-                    NodeLinkingDirective::Add { .. } => Either::Left(other.descendants(ch)),
-                    NodeLinkingDirective::UseExisting(_) => Either::Right(std::iter::once(ch)),
-                }));
-        let mut roots = HashMap::new();
+        let nodes = parent.iter().flat_map(|_| other.entry_descendants()).chain(
+            sorted_directives(&children).flat_map(|(ch, dirv)| match dirv {
+                NodeLinkingDirective::Add { .. } => Either::Left(other.descendants(ch)),
+                NodeLinkingDirective::UseExisting(_) => Either::Right(std::iter::once(ch)),
+            }),
+        );
+        let mut roots = BTreeMap::new();
         if let Some(parent) = parent {
             roots.insert(other.entrypoint(), parent);
         }
@@ -84,7 +85,7 @@ pub trait HugrLinking: HugrMut {
         children: NodeLinkingDirectives<Node, Self::Node>,
     ) -> Result<InsertedForest<Node, Self::Node>, NodeLinkingError<Node, Self::Node>> {
         let transfers = check_directives(&other, parent, &children)?;
-        let mut roots = HashMap::new();
+        let mut roots = BTreeMap::new();
         if let Some(parent) = parent {
             roots.insert(other.entrypoint(), parent);
             other.set_parent(other.entrypoint(), other.module_root());
@@ -194,8 +195,19 @@ pub type NodeLinkingDirectives<SN, TN> = HashMap<SN, NodeLinkingDirective<TN>>;
 /// Invariant: no SourceNode can be in both maps (by type of [NodeLinkingDirective])
 /// TargetNodes can be (in RHS of multiple directives)
 struct Transfers<SourceNode, TargetNode> {
-    use_existing: HashMap<SourceNode, TargetNode>,
-    replace: HashMap<TargetNode, SourceNode>,
+    use_existing: BTreeMap<SourceNode, TargetNode>,
+    replace: BTreeMap<TargetNode, SourceNode>,
+}
+
+/// The directives in the order of the source nodes: the outcome of linking
+/// must not depend on the iteration order of the map.
+fn sorted_directives<SN: HugrNode, TN>(
+    children: &NodeLinkingDirectives<SN, TN>,
+) -> impl Iterator<Item = (SN, &NodeLinkingDirective<TN>)> + Clone {
+    children
+        .iter()
+        .map(|(&sn, dirv)| (sn, dirv))
+        .sorted_by_key(|(sn, _)| *sn)
 }
 
 fn check_directives<SRC: HugrView, TN: HugrNode>(
@@ -205,8 +217,8 @@ fn check_directives<SRC: HugrView, TN: HugrNode>(
 ) -> Result<Transfers<SRC::Node, TN>, NodeLinkingError<SRC::Node, TN>> {
     if parent.is_some() {
         if other.entrypoint() == other.module_root() {
-            if let Some(c) = children.keys().next() {
-                return Err(NodeLinkingError::ChildOfEntrypoint(*c));
+            if let Some((c, _)) = sorted_directives(children).next() {
+                return Err(NodeLinkingError::ChildOfEntrypoint(c));
             }
         } else {
             let mut n = other.entrypoint();
@@ -228,10 +240,10 @@ fn check_directives<SRC: HugrView, TN: HugrNode>(
         }
     }
     let mut trns = Transfers {
-        replace: HashMap::default(),
-        use_existing: HashMap::default(),
+        replace: BTreeMap::default(),
+        use_existing: BTreeMap::default(),
     };
-    for (&sn, dirv) in children {
+    for (sn, dirv) in sorted_directives(children) {
         if other.get_parent(sn) != Some(other.module_root()) {
             return Err(NodeLinkingError::NotChildOfRoot(sn));
         }
-- 
2.43.0


From d0d0a96c56910904f8039f92f57fa960c5280dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 22/31] fix: outlining a CFG orders the outlined blocks
 deterministically

---
 hugr-core/src/hugr/patch/outline_cfg.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/hugr/patch/outline_cfg.rs b/hugr-core/src/hugr/patch/outline_cfg.rs
index 081ba24..3423dfc 100644
--- a/hugr-core/src/hugr/patch/outline_cfg.rs
+++ b/hugr-core/src/hugr/patch/outline_cfg.rs
@@ -1,6 +1,6 @@
 //! Rewrite for inserting a CFG-node into the hierarchy containing a subsection
 //! of an existing CFG
-use std::collections::HashSet;
+use std::collections::BTreeSet;
 
 use itertools::Itertools;
 use thiserror::Error;
@@ -19,14 +19,14 @@ use super::{PatchHugrMut, PatchVerification};
 /// Moves some of the blocks in a Control-flow region into a new CFG-node that
 /// is the only child of a new Basic Block in the original region.
 pub struct OutlineCfg {
-    blocks: HashSet<Node>,
+    blocks: BTreeSet<Node>,
 }
 
 impl OutlineCfg {
     /// Create a new `OutlineCfg` rewrite that will move the provided blocks.
     pub fn new(blocks: impl IntoIterator<Item = Node>) -> Self {
         Self {
-            blocks: HashSet::from_iter(blocks),
+            blocks: BTreeSet::from_iter(blocks),
         }
     }
 
-- 
2.43.0


From 5b9e31a6d95c88e6f9d5c9d9c5ee6c8cbdf27f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 23/31] fix: replacement removes nodes in a deterministic order

---
 hugr-core/src/hugr/patch/replace.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/hugr/patch/replace.rs b/hugr-core/src/hugr/patch/replace.rs
index ba4104a..4660e55 100644
--- a/hugr-core/src/hugr/patch/replace.rs
+++ b/hugr-core/src/hugr/patch/replace.rs
@@ -233,7 +233,7 @@ impl<HostNode: HugrNode> Replacement<HostNode> {
         }
         if !transferred.is_empty() {
             return Err(ReplaceError::AdopteesNotSeparateDescendants(
-                transferred.into_iter().collect(),
+                transferred.into_iter().sorted().collect(),
             ));
         }
         Ok(removed)
@@ -409,7 +409,8 @@ impl<HostNode: HugrNode> PatchHugrMut for Replacement<HostNode> {
         }
 
         // 7. Remove remaining nodes
-        for n in to_remove {
+        // (always in the same order, as later additions reuse their indices)
+        for n in to_remove.into_iter().sorted() {
             h.remove_node(n);
         }
         Ok(node_map)
-- 
2.43.0


From 4e776df523354d690e496ec85daf5da06ab6e116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 24/31] fix: the miscellaneous data of an operation definition
 is encoded in the order of its keys

---
 hugr-core/src/extension/op_def.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/extension/op_def.rs b/hugr-core/src/extension/op_def.rs
index c1e19b5..f6e5e09 100644
--- a/hugr-core/src/extension/op_def.rs
+++ b/hugr-core/src/extension/op_def.rs
@@ -1,9 +1,10 @@
 use std::cmp::min;
-use std::collections::HashMap;
 use std::collections::btree_map::Entry;
+use std::collections::{BTreeMap, HashMap};
 use std::fmt::{Debug, Formatter};
 use std::sync::{Arc, Weak};
 
+use itertools::Itertools as _;
 use serde_with::serde_as;
 
 use super::{
@@ -347,7 +348,11 @@ pub struct OpDef {
     /// Human readable description of the operation.
     description: String,
     /// Miscellaneous data associated with the operation.
-    #[serde(default, skip_serializing_if = "HashMap::is_empty")]
+    #[serde(
+        default,
+        skip_serializing_if = "HashMap::is_empty",
+        serialize_with = "serialize_misc"
+    )]
     misc: HashMap<String, serde_json::Value>,
 
     #[serde(with = "serialize_signature_func", flatten)]
@@ -366,6 +371,15 @@ pub struct OpDef {
     constant_folder: Option<Box<dyn ConstFold>>,
 }
 
+/// Serialize miscellaneous data in the order of its keys, so that equal
+/// definitions are encoded equally.
+fn serialize_misc<S: serde::Serializer>(
+    misc: &HashMap<String, serde_json::Value>,
+    serializer: S,
+) -> Result<S::Ok, S::Error> {
+    serializer.collect_map(misc.iter().collect::<BTreeMap<_, _>>())
+}
+
 impl OpDef {
     /// Check provided type arguments are valid against their extensions,
     /// against parameters, and that no type variables are used as static arguments
@@ -488,7 +502,10 @@ impl OpDef {
     /// Iterate over all miscellaneous data in the [`OpDef`].
     #[allow(unused)] // Unused when no features are enabled
     pub(crate) fn iter_misc(&self) -> impl ExactSizeIterator<Item = (&str, &serde_json::Value)> {
-        self.misc.iter().map(|(k, v)| (k.as_str(), v))
+        self.misc
+            .iter()
+            .map(|(k, v)| (k.as_str(), v))
+            .sorted_by_key(|(k, _)| *k)
     }
 
     /// Set the constant folding function for this Op, which can evaluate it
-- 
2.43.0


From acb78182c7ac56c78b52b791665ea6abf681b56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 25/31] fix: call graph and module graph edges are added in a
 deterministic order

---
 hugr-core/src/module_graph.rs | 5 ++++-
 hugr-passes/src/call_graph.rs | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/module_graph.rs b/hugr-core/src/module_graph.rs
index 5baec0a..a41ffc1 100644
--- a/hugr-core/src/module_graph.rs
+++ b/hugr-core/src/module_graph.rs
@@ -57,6 +57,8 @@ pub struct ModuleGraph<N = Node> {
 impl<N: HugrNode> ModuleGraph<N> {
     /// Makes a new `ModuleGraph` for a Hugr.
     pub fn new(hugr: &impl HugrView<Node = N>) -> Self {
+        use itertools::Itertools as _;
+
         let mut g = Graph::default();
         let mut node_to_g = hugr
             .children(hugr.module_root())
@@ -73,7 +75,8 @@ impl<N: HugrNode> ModuleGraph<N> {
         if !hugr.entrypoint_optype().is_module() && !node_to_g.contains_key(&hugr.entrypoint()) {
             node_to_g.insert(hugr.entrypoint(), g.add_node(StaticNode::NonFuncEntrypoint));
         }
-        for (func, cg_node) in &node_to_g {
+        // Edges are added in the order of the nodes of the graph.
+        for (func, cg_node) in node_to_g.iter().sorted_by_key(|(_, g)| **g) {
             traverse(hugr, *cg_node, *func, &mut g, &node_to_g);
         }
         fn traverse<N: HugrNode>(
diff --git a/hugr-passes/src/call_graph.rs b/hugr-passes/src/call_graph.rs
index 7baf853..ca00954 100644
--- a/hugr-passes/src/call_graph.rs
+++ b/hugr-passes/src/call_graph.rs
@@ -2,6 +2,7 @@
 use std::collections::HashMap;
 
 use hugr_core::{HugrView, Node, core::HugrNode, ops::OpType};
+use itertools::Itertools as _;
 use petgraph::Graph;
 
 /// Weight for an edge in a [`CallGraph`]
@@ -62,7 +63,8 @@ impl<N: HugrNode> CallGraph<N> {
         if !hugr.entrypoint_optype().is_module() && !node_to_g.contains_key(&hugr.entrypoint()) {
             node_to_g.insert(hugr.entrypoint(), g.add_node(CallGraphNode::NonFuncRoot));
         }
-        for (func, cg_node) in &node_to_g {
+        // Edges are added in the order of the nodes of the graph.
+        for (func, cg_node) in node_to_g.iter().sorted_by_key(|(_, g)| **g) {
             traverse(hugr, *cg_node, *func, &mut g, &node_to_g);
         }
         fn traverse<N: HugrNode>(
-- 
2.43.0


From 37be3326470a3f3b853de5c6f20f4f504ba87ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 26/31] fix: monomorphization adds edges in a deterministic
 order

---
 hugr-passes/src/monomorphize.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hugr-passes/src/monomorphize.rs b/hugr-passes/src/monomorphize.rs
index 2d5abd5..2719bfc 100644
--- a/hugr-passes/src/monomorphize.rs
+++ b/hugr-passes/src/monomorphize.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{HashMap, hash_map::Entry},
+    collections::{BTreeMap, HashMap, hash_map::Entry},
     convert::Infallible,
     fmt::Write,
 };
@@ -49,7 +49,7 @@ fn is_polymorphic_funcdefn(t: &OpType) -> bool {
 struct Instantiating<'a> {
     subst: &'a Substitution<'a>,
     target_container: Node,
-    node_map: &'a mut HashMap<Node, Node>,
+    node_map: &'a mut BTreeMap<Node, Node>,
 }
 
 type Instantiations = HashMap<Node, HashMap<Vec<TypeArg>, Node>>;
@@ -148,7 +148,8 @@ fn instantiate(
     // Insert BEFORE we scan (in case of recursion), hence we cannot use Entry::or_insert
     ve.insert(mono_tgt);
     // Now make the instantiation
-    let mut node_map = HashMap::new();
+    // Ordered, so that edges are always added in the same order.
+    let mut node_map = BTreeMap::new();
     let mut inst = Instantiating {
         subst: &Substitution::new(&type_args),
         target_container: mono_tgt,
-- 
2.43.0


From 5432ed635f8914bc1615019b7d7d451e724dffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 27/31] fix: functions are emitted to LLVM in a deterministic
 order

---
 hugr-llvm/src/emit.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hugr-llvm/src/emit.rs b/hugr-llvm/src/emit.rs
index c325fbb..2f87d38 100644
--- a/hugr-llvm/src/emit.rs
+++ b/hugr-llvm/src/emit.rs
@@ -13,7 +13,7 @@ use inkwell::{
     types::{AnyType, BasicType, BasicTypeEnum, FunctionType},
     values::{BasicValueEnum, CallSiteValue, FunctionValue, GlobalValue},
 };
-use std::{collections::HashSet, rc::Rc};
+use std::{collections::BTreeSet, rc::Rc};
 
 use crate::types::{HugrFuncType, HugrSumType, HugrType, TypingSession};
 
@@ -239,7 +239,8 @@ impl<'c, 'a, H> EmitModuleContext<'c, 'a, H> {
     }
 }
 
-type EmissionSet = HashSet<Node>;
+/// Ordered, so that functions are always emitted in the same order.
+type EmissionSet = BTreeSet<Node>;
 
 /// Emits [`HugrView`]s into an LLVM [Module].
 pub struct EmitHugr<'c, 'a, H>
-- 
2.43.0


From 8b34a30bd959ebb2e695483281561ace435e5474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 28/31] fix: mismatched linear inputs are reported in port
 order

---
 hugr-core/src/builder/circuit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/builder/circuit.rs b/hugr-core/src/builder/circuit.rs
index 193bfe0..519081d 100644
--- a/hugr-core/src/builder/circuit.rs
+++ b/hugr-core/src/builder/circuit.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::mem;
 
 use thiserror::Error;
@@ -125,7 +125,7 @@ impl<'a, T: Dataflow + ?Sized> CircuitBuilder<'a, T> {
         inputs: impl IntoIterator<Item = A>,
     ) -> Result<Vec<Wire>, BuildError> {
         // map of linear port offset to wire vector index
-        let mut linear_inputs = HashMap::new();
+        let mut linear_inputs = BTreeMap::new();
         let op = op.into();
 
         let input_wires: Result<Vec<Wire>, usize> = inputs
@@ -170,7 +170,7 @@ impl<'a, T: Dataflow + ?Sized> CircuitBuilder<'a, T> {
         if !linear_inputs.is_empty() {
             return Err(CircuitBuildError::MismatchedLinearInputs {
                 op: Box::new(op),
-                index: linear_inputs.values().copied().collect(),
+                index: linear_inputs.into_values().collect(),
             }
             .into());
         }
-- 
2.43.0


From cbc0b42efe9b737f07a9e7e442ecc07c6083fb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:36 +0000
Subject: [PATCH 29/31] fix: accept list and tuple concatenation arguments when
 reading and writing JSON in Python

TypeArg's union left out ListConcatArg and TupleConcatArg, so such type
arguments could be neither written by Python nor read from Rust's JSON.
The published schema is regenerated.
---
 hugr-py/src/hugr/_serialization/tys.py        |  2 +
 specification/schema/hugr_schema_live.json    | 54 +++++++++++++++++++
 .../schema/hugr_schema_strict_live.json       | 54 +++++++++++++++++++
 .../schema/testing_hugr_schema_live.json      | 54 +++++++++++++++++++
 .../testing_hugr_schema_strict_live.json      | 54 +++++++++++++++++++
 5 files changed, 218 insertions(+)

diff --git a/hugr-py/src/hugr/_serialization/tys.py b/hugr-py/src/hugr/_serialization/tys.py
index f841c85..6dff985 100644
--- a/hugr-py/src/hugr/_serialization/tys.py
+++ b/hugr-py/src/hugr/_serialization/tys.py
@@ -259,7 +259,9 @@ class TypeArg(RootModel):
         | BytesArg
         | FloatArg
         | ListArg
+        | ListConcatArg
         | TupleArg
+        | TupleConcatArg
         | VariableArg,
         WrapValidator(_json_custom_error_validator),
     ] = Field(discriminator="tya")
diff --git a/specification/schema/hugr_schema_live.json b/specification/schema/hugr_schema_live.json
index 6b34956..5552716 100644
--- a/specification/schema/hugr_schema_live.json
+++ b/specification/schema/hugr_schema_live.json
@@ -891,6 +891,29 @@
             "title": "ListArg",
             "type": "object"
         },
+        "ListConcatArg": {
+            "additionalProperties": true,
+            "properties": {
+                "tya": {
+                    "const": "ListConcat",
+                    "default": "ListConcat",
+                    "title": "Tya",
+                    "type": "string"
+                },
+                "lists": {
+                    "items": {
+                        "$ref": "#/$defs/TypeArg"
+                    },
+                    "title": "Lists",
+                    "type": "array"
+                }
+            },
+            "required": [
+                "lists"
+            ],
+            "title": "ListConcatArg",
+            "type": "object"
+        },
         "ListParam": {
             "additionalProperties": true,
             "properties": {
@@ -1626,6 +1649,29 @@
             "title": "TupleArg",
             "type": "object"
         },
+        "TupleConcatArg": {
+            "additionalProperties": true,
+            "properties": {
+                "tya": {
+                    "const": "TupleConcat",
+                    "default": "TupleConcat",
+                    "title": "Tya",
+                    "type": "string"
+                },
+                "tuples": {
+                    "items": {
+                        "$ref": "#/$defs/TypeArg"
+                    },
+                    "title": "Tuples",
+                    "type": "array"
+                }
+            },
+            "required": [
+                "tuples"
+            ],
+            "title": "TupleConcatArg",
+            "type": "object"
+        },
         "TupleParam": {
             "additionalProperties": true,
             "properties": {
@@ -1703,8 +1749,10 @@
                     "Bytes": "#/$defs/BytesArg",
                     "Float": "#/$defs/FloatArg",
                     "List": "#/$defs/ListArg",
+                    "ListConcat": "#/$defs/ListConcatArg",
                     "String": "#/$defs/StringArg",
                     "Tuple": "#/$defs/TupleArg",
+                    "TupleConcat": "#/$defs/TupleConcatArg",
                     "Type": "#/$defs/TypeTypeArg",
                     "Variable": "#/$defs/VariableArg"
                 },
@@ -1729,9 +1777,15 @@
                 {
                     "$ref": "#/$defs/ListArg"
                 },
+                {
+                    "$ref": "#/$defs/ListConcatArg"
+                },
                 {
                     "$ref": "#/$defs/TupleArg"
                 },
+                {
+                    "$ref": "#/$defs/TupleConcatArg"
+                },
                 {
                     "$ref": "#/$defs/VariableArg"
                 }
diff --git a/specification/schema/hugr_schema_strict_live.json b/specification/schema/hugr_schema_strict_live.json
index 7d40de1..887f788 100644
--- a/specification/schema/hugr_schema_strict_live.json
+++ b/specification/schema/hugr_schema_strict_live.json
@@ -891,6 +891,29 @@
             "title": "ListArg",
             "type": "object"
         },
+        "ListConcatArg": {
+            "additionalProperties": false,
+            "properties": {
+                "tya": {
+                    "const": "ListConcat",
+                    "default": "ListConcat",
+                    "title": "Tya",
+                    "type": "string"
+                },
+                "lists": {
+                    "items": {
+                        "$ref": "#/$defs/TypeArg"
+                    },
+                    "title": "Lists",
+                    "type": "array"
+                }
+            },
+            "required": [
+                "lists"
+            ],
+            "title": "ListConcatArg",
+            "type": "object"
+        },
         "ListParam": {
             "additionalProperties": false,
             "properties": {
@@ -1626,6 +1649,29 @@
             "title": "TupleArg",
             "type": "object"
         },
+        "TupleConcatArg": {
+            "additionalProperties": false,
+            "properties": {
+                "tya": {
+                    "const": "TupleConcat",
+                    "default": "TupleConcat",
+                    "title": "Tya",
+                    "type": "string"
+                },
+                "tuples": {
+                    "items": {
+                        "$ref": "#/$defs/TypeArg"
+                    },
+                    "title": "Tuples",
+                    "type": "array"
+                }
+            },
+            "required": [
+                "tuples"
+            ],
+            "title": "TupleConcatArg",
+            "type": "object"
+        },
         "TupleParam": {
             "additionalProperties": false,
             "properties": {
@@ -1703,8 +1749,10 @@
                     "Bytes": "#/$defs/BytesArg",
                     "Float": "#/$defs/FloatArg",
                     "List": "#/$defs/ListArg",
+                    "ListConcat": "#/$defs/ListConcatArg",
                     "String": "#/$defs/StringArg",
                     "Tuple": "#/$defs/TupleArg",
+                    "TupleConcat": "#/$defs/TupleConcatArg",
                     "Type": "#/$defs/TypeTypeArg",
                     "Variable": "#/$defs/VariableArg"
                 },
@@ -1729,9 +1777,15 @@
                 {
                     "$ref": "#/$defs/ListArg"
                 },
+                {
+                    "$ref": "#/$defs/ListConcatArg"
+                },
                 {
                     "$ref": "#/$defs/TupleArg"
                 },
+                {
+                    "$ref": "#/$defs/TupleConcatArg"
+                },
                 {
                     "$ref": "#/$defs/VariableArg"
                 }
diff --git a/specification/schema/testing_hugr_schema_live.json b/specification/schema/testing_hugr_schema_live.json
index 4d4d9f3..3a6a784 100644
--- a/specification/schema/testing_hugr_schema_live.json
+++ b/specification/schema/testing_hugr_schema_live.json
@@ -891,6 +891,29 @@
             "title": "ListArg",
             "type": "object"
         },
+        "ListConcatArg": {
+            "additionalProperties": true,
+            "properties": {
+                "tya": {
+                    "const": "ListConcat",
+                    "default": "ListConcat",
+                    "title": "Tya",
+                    "type": "string"
+                },
+                "lists": {
+                    "items": {
+                        "$ref": "#/$defs/TypeArg"
+                    },
+                    "title": "Lists",
+                    "type": "array"
+                }
+            },
+            "required": [
+                "lists"
+            ],
+            "title": "ListConcatArg",
+            "type": "object"
+        },
         "ListParam": {
             "additionalProperties": true,
             "properties": {
@@ -1704,6 +1727,29 @@
             "title": "TupleArg",
             "type": "object"
         },
+        "TupleConcatArg": {
+            "additionalProperties": true,
+            "properties": {
+                "tya": {
+                    "const": "TupleConcat",
+                    "default": "TupleConcat",
+                    "title": "Tya",
+                    "type": "string"
+                },
+                "tuples": {
+                    "items": {
+                        "$ref": "#/$defs/TypeArg"
+                    },
+                    "title": "Tuples",
+                    "type": "array"
+                }
+            },
+            "required": [
+                "tuples"
+            ],
+            "title": "TupleConcatArg",
+            "type": "object"
+        },
         "TupleParam": {
             "additionalProperties": true,
             "properties": {
@@ -1781,8 +1827,10 @@
                     "Bytes": "#/$defs/BytesArg",
                     "Float": "#/$defs/FloatArg",
                     "List": "#/$defs/ListArg",
+                    "ListConcat": "#/$defs/ListConcatArg",
                     "String": "#/$defs/StringArg",
                     "Tuple": "#/$defs/TupleArg",
+                    "TupleConcat": "#/$defs/TupleConcatArg",
                     "Type": "#/$defs/TypeTypeArg",
                     "Variable": "#/$defs/VariableArg"
                 },
@@ -1807,9 +1855,15 @@
                 {
                     "$ref": "#/$defs/ListArg"
                 },
+                {
+                    "$ref": "#/$defs/ListConcatArg"
+                },
                 {
                     "$ref": "#/$defs/TupleArg"
                 },
+                {
+                    "$ref": "#/$defs/TupleConcatArg"
+                },
                 {
                     "$ref": "#/$defs/VariableArg"
                 }
diff --git a/specification/schema/testing_hugr_schema_strict_live.json b/specification/schema/testing_hugr_schema_strict_live.json
index 437ac37..6b676dc 100644
--- a/specification/schema/testing_hugr_schema_strict_live.json
+++ b/specification/schema/testing_hugr_schema_strict_live.json
@@ -891,6 +891,29 @@
             "title": "ListArg",
             "type": "object"
         },
+        "ListConcatArg": {
+            "additionalProperties": false,
+            "properties": {
+                "tya": {
+                    "const": "ListConcat",
+                    "default": "ListConcat",
+                    "title": "Tya",
+                    "type": "string"
+                },
+                "lists": {
+                    "items": {
+                        "$ref": "#/$defs/TypeArg"
+                    },
+                    "title": "Lists",
+                    "type": "array"
+                }
+            },
+            "required": [
+                "lists"
+            ],
+            "title": "ListConcatArg",
+            "type": "object"
+        },
         "ListParam": {
             "additionalProperties": false,
             "properties": {
@@ -1704,6 +1727,29 @@
             "title": "TupleArg",
             "type": "object"
         },
+        "TupleConcatArg": {
+            "additionalProperties": false,
+            "properties": {
+                "tya": {
+                    "const": "TupleConcat",
+                    "default": "TupleConcat",
+                    "title": "Tya",
+                    "type": "string"
+                },
+                "tuples": {
+                    "items": {
+                        "$ref": "#/$defs/TypeArg"
+                    },
+                    "title": "Tuples",
+                    "type": "array"
+                }
+            },
+            "required": [
+                "tuples"
+            ],
+            "title": "TupleConcatArg",
+            "type": "object"
+        },
         "TupleParam": {
             "additionalProperties": false,
             "properties": {
@@ -1781,8 +1827,10 @@
                     "Bytes": "#/$defs/BytesArg",
                     "Float": "#/$defs/FloatArg",
                     "List": "#/$defs/ListArg",
+                    "ListConcat": "#/$defs/ListConcatArg",
                     "String": "#/$defs/StringArg",
                     "Tuple": "#/$defs/TupleArg",
+                    "TupleConcat": "#/$defs/TupleConcatArg",
                     "Type": "#/$defs/TypeTypeArg",
                     "Variable": "#/$defs/VariableArg"
                 },
@@ -1807,9 +1855,15 @@
                 {
                     "$ref": "#/$defs/ListArg"
                 },
+                {
+                    "$ref": "#/$defs/ListConcatArg"
+                },
                 {
                     "$ref": "#/$defs/TupleArg"
                 },
+                {
+                    "$ref": "#/$defs/TupleConcatArg"
+                },
                 {
                     "$ref": "#/$defs/VariableArg"
                 }
-- 
2.43.0


From 214865cb3bbfb69bb62c026daa14f45c17662b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:30 +0000
Subject: [PATCH 30/31] fix: decode boolean result data as a bit

A boolean is accepted as bit data, but was written into the bitstring as
'True' or 'False'.
---
 hugr-py/src/hugr/qsystem/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-py/src/hugr/qsystem/result.py b/hugr-py/src/hugr/qsystem/result.py
index 16f375a..28eda89 100644
--- a/hugr-py/src/hugr/qsystem/result.py
+++ b/hugr-py/src/hugr/qsystem/result.py
@@ -138,7 +138,7 @@ class HResult(QsysShot):
 
 def _cast_primitive_bit(data: DataValue) -> BitChar:
     if isinstance(data, int) and data in {0, 1}:
-        return str(data)  # type: ignore[return-value]
+        return str(int(data))  # type: ignore[return-value]
     msg = f"Expected bit data for register value found {data}"
     raise ValueError(msg)
 
-- 
2.43.0


From 77b7b39f18e08d9aaa20ad4243f43b578f9f5d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:30 +0000
Subject: [PATCH 31/31] fix: keep sub-offsets contiguous when deleting links in
 Python HUGRs

Deleting one of several links of a port left a gap, after which the
remaining links of the port were no longer reported; deleting a node only
removed the first link of each of its ports.
---
 hugr-py/src/hugr/hugr/base.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/hugr-py/src/hugr/hugr/base.py b/hugr-py/src/hugr/hugr/base.py
index 1ab0bd7..9e1d198 100644
--- a/hugr-py/src/hugr/hugr/base.py
+++ b/hugr-py/src/hugr/hugr/base.py
@@ -467,9 +467,13 @@ class Hugr(Mapping[Node, NodeData], Generic[OpVarCov]):
         if parent:
             self[parent].children.remove(node)
         for inp, _ in self.incoming_links(node):
-            self._links.delete_right(_SubPort(inp))
+            dst = _SubPort(inp)
+            while (src := self._links.get_left(dst)) is not None:
+                self._delete_sub_link(src, dst)
         for out, _ in self.outgoing_links(node):
-            self._links.delete_left(_SubPort(out))
+            src = _SubPort(out)
+            while (dst := self._links.get_right(src)) is not None:
+                self._delete_sub_link(src, dst)
 
         weight, self._nodes[node.idx] = self._nodes[node.idx], None
 
@@ -567,10 +571,22 @@ class Hugr(Mapping[Node, NodeData], Generic[OpVarCov]):
             sub_offset = next(
                 i for i, inp in enumerate(self.linked_ports(src)) if inp == dst
             )
-            self._links.delete_left(_SubPort(src, sub_offset))
         except StopIteration:
             return
-        # TODO make sure sub-offset is handled correctly
+        src_sub = _SubPort(src, sub_offset)
+        self._delete_sub_link(src_sub, self._links[src_sub])
+
+    def _delete_sub_link(self, src: _SO, dst: _SI) -> None:
+        """Delete a link, and move up the later links of both of its ports so that
+        the sub-offsets of each port stay contiguous.
+        """
+        self._links.delete_left(src)
+        while (next_src := src.next_sub_offset()) in self._links.fwd:
+            self._links.insert_left(src, self._links.fwd[next_src])
+            src = next_src
+        while (next_dst := dst.next_sub_offset()) in self._links.bck:
+            self._links.insert_right(dst, self._links.bck[next_dst])
+            dst = next_dst
 
     def entrypoint_op(self) -> OpVarCov:
         """The operation of the root node.
-- 
2.43.0

