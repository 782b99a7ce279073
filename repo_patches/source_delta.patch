From 8113f69a794a28bbbd0607083f025470b407eb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:18 +0000
Subject: [PATCH 1/3] fix: a variant is available from its minimal ISA version
 onwards

is_available_for_version compared the wrong way round, so every variant
introduced in ISA version 0 was reported unavailable in version 1 and
variants_for_version(1) was empty for every opcode family.
---
 src/definitions/opcode_trait.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definitions/opcode_trait.rs b/src/definitions/opcode_trait.rs
index a71ee48..b7c5e2f 100644
--- a/src/definitions/opcode_trait.rs
+++ b/src/definitions/opcode_trait.rs
@@ -90,7 +90,7 @@ pub trait OpcodeVariantProps: Sized + 'static + Send + Sync {
     fn minimal_version(&self) -> ISAVersion;
     fn max_variant_idx_for_version(version: ISAVersion) -> usize;
     fn is_available_for_version(&self, version: ISAVersion) -> bool {
-        self.minimal_version() >= version
+        self.minimal_version() <= version
     }
     fn is_added_in_version(&self, version: ISAVersion) -> bool {
         self.minimal_version() == version
-- 
2.43.0


From 2790ee0f9609deced1fa164bb7d3f224bf5f5e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:18 +0000
Subject: [PATCH 2/3] fix: ptr opcode reports shrink as its highest variant
 index

max_variant_idx returned the index of Pack although Shrink follows it,
contradicting max_variant_idx_for_version and variants_data.
---
 src/definitions/ptr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definitions/ptr.rs b/src/definitions/ptr.rs
index 609ba64..7fb899d 100644
--- a/src/definitions/ptr.rs
+++ b/src/definitions/ptr.rs
@@ -65,7 +65,7 @@ impl OpcodeProps for PtrOpcode {
         }
     }
     fn max_variant_idx(&self, _version: ISAVersion) -> usize {
-        PtrOpcode::Pack.variant_index()
+        PtrOpcode::Shrink.variant_index()
     }
     fn input_operands(&self, _version: ISAVersion) -> Vec<Operand> {
         vec![
-- 
2.43.0


From 5a48af4c6e39eef7caf4ee54e0f1335709c87a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:51 +0000
Subject: [PATCH 3/3] fix: make the default opcode variant the encodable no-op

OpcodeVariant::default() described a no-op with register-only operands,
a combination without an opcode number, so a default-constructed
instruction could not be encoded. Use the addressing modes of the no-op
in the opcode table, as mask_into_nop and NOP_OPCODE_VARIANT do.
---
 src/definitions/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/definitions/mod.rs b/src/definitions/mod.rs
index bcb8041..791e9d6 100644
--- a/src/definitions/mod.rs
+++ b/src/definitions/mod.rs
@@ -166,8 +166,8 @@ impl std::default::Default for OpcodeVariant {
     fn default() -> Self {
         OpcodeVariant {
             opcode: Opcode::Nop(NopOpcode),
-            src0_operand_type: Operand::RegOnly,
-            dst0_operand_type: Operand::RegOnly,
+            src0_operand_type: Operand::Full(ImmMemHandlerFlags::UseRegOnly),
+            dst0_operand_type: Operand::Full(ImmMemHandlerFlags::UseRegOnly),
             flags: [false; NUM_NON_EXCLUSIVE_FLAGS],
         }
     }
-- 
2.43.0

