From 4b914a3f0dab251ead05388e3f3c00db4ae5ec29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 01/13] fix: dispatch caret values on their 16-bit format

---
 src/tables/glyph_definition/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/glyph_definition/element.rs b/src/tables/glyph_definition/element.rs
index 4eb5990..3e2f77b 100644
--- a/src/tables/glyph_definition/element.rs
+++ b/src/tables/glyph_definition/element.rs
@@ -132,7 +132,7 @@ table! {
 
 impl crate::value::Read for Caret {
     fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {
-        Ok(match tape.peek::<u32>()? {
+        Ok(match tape.peek::<u16>()? {
             1 => Self::Format1(tape.take()?),
             2 => Self::Format2(tape.take()?),
             3 => Self::Format3(tape.take()?),
-- 
2.43.0


From 308e9b0be6632b239b208af67b2a13fe96563b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 02/13] fix: read the variation store of a glyph definition at
 its own offset

---
 src/tables/glyph_definition/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/glyph_definition/mod.rs b/src/tables/glyph_definition/mod.rs
index ae7c79d..1a9db68 100644
--- a/src/tables/glyph_definition/mod.rs
+++ b/src/tables/glyph_definition/mod.rs
@@ -74,7 +74,7 @@ table! {
             jump_take_maybe!(
                 tape,
                 position,
-                field!(this.header => mark_offset(0), Header::{Version13})
+                field!(this.header => variation_offset(0), Header::{Version13})
             )
         },
     }
-- 
2.43.0


From 0895e9c813d584195376f04725b602c87045adc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 03/13] fix: do not read a device delta word too many when the
 last one is full

---
 src/layout/correction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/correction.rs b/src/layout/correction.rs
index 944959e..b6d8e8c 100644
--- a/src/layout/correction.rs
+++ b/src/layout/correction.rs
@@ -61,7 +61,7 @@ impl crate::value::Read for Device {
         }
         let count = (end_size - start_size) as usize + 1;
         let bit_count = (1 << format as usize) * count;
-        let short_count = (bit_count + 16 - bit_count % 16) >> 4;
+        let short_count = (bit_count + 15) >> 4;
         let deltas = tape.take_given(short_count)?;
         Ok(Device {
             start_size,
-- 
2.43.0


From 07d1f9bef61425ff80c555dc04a0a5e9e713013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 04/13] fix: do not overflow on the size of delta sets

---
 src/variations/item.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variations/item.rs b/src/variations/item.rs
index 452679d..99a5203 100644
--- a/src/variations/item.rs
+++ b/src/variations/item.rs
@@ -30,8 +30,8 @@ table! {
         },
 
         deltas (Vec<u8>) |this, tape| { // deltaSets
-            let per_item_count = this.short_delta_count + this.region_count;
-            tape.take_given(this.item_count as usize * per_item_count as usize)
+            let per_item_count = this.short_delta_count as usize + this.region_count as usize;
+            tape.take_given(this.item_count as usize * per_item_count)
         },
     }
 }
-- 
2.43.0


From f4f56f1f713a8dff1b3244264f4bf09fdf17e190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 05/13] fix: do not read a PostScript name an instance record
 does not have

---
 src/tables/font_variations/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/tables/font_variations/mod.rs b/src/tables/font_variations/mod.rs
index 8a2ae59..2fe691d 100644
--- a/src/tables/font_variations/mod.rs
+++ b/src/tables/font_variations/mod.rs
@@ -81,10 +81,20 @@ impl crate::value::Read for FontVariations {
             })
             .collect::<Result<Vec<_>>>()?;
         position += header.axis_count as u64 * header.axis_size as u64;
+        let has_postscript_name =
+            header.instance_size as usize >= 4 * header.axis_count as usize + 6;
         let instance_records = (0..header.instance_count as u64)
             .map(|i| {
                 tape.jump(position + i * header.instance_size as u64)?;
-                tape.take_given(header.axis_count)
+                if has_postscript_name {
+                    return tape.take_given(header.axis_count);
+                }
+                Ok(InstanceRecord {
+                    subfamily_name_id: tape.take()?,
+                    flags: tape.take()?,
+                    coordinates: tape.take_given(header.axis_count as usize)?,
+                    postscript_name_id: NameID::Other(0xFFFF),
+                })
             })
             .collect::<Result<Vec<_>>>()?;
         Ok(Self {
-- 
2.43.0


From d69792b56951e609e0873490f509a6bf5cd49ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 06/13] fix: refuse font variations of an unknown major version

---
 src/tables/font_variations/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/font_variations/mod.rs b/src/tables/font_variations/mod.rs
index 2fe691d..961b15e 100644
--- a/src/tables/font_variations/mod.rs
+++ b/src/tables/font_variations/mod.rs
@@ -19,7 +19,7 @@ table! {
     /// The header of a font-variations table.
     #[derive(Copy)]
     pub Header {
-        major_version  (u16), // majorVersion
+        major_version  (u16) = { 1 }, // majorVersion
         minor_version  (u16), // minorVersion
         axis_offset    (u16), // axesArrayOffset
         reserved       (u16) = { 2 }, // reserved
-- 
2.43.0


From 0463206e4d8c1c8e18e23d2b27950791f4a4a969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 07/13] fix: refuse a reverse chained substitution of an
 unknown format

---
 src/tables/glyph_substitution/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/glyph_substitution/mod.rs b/src/tables/glyph_substitution/mod.rs
index 77c06ff..45f4acd 100644
--- a/src/tables/glyph_substitution/mod.rs
+++ b/src/tables/glyph_substitution/mod.rs
@@ -147,7 +147,7 @@ table! {
     @position
     /// A reversed chained contextual substitution.
     pub ReverseChainedContextualSubstibution { // ReverseChainSingleSubstFormat1
-        format               (u16), // substFormat
+        format               (u16) = { 1 }, // substFormat
         coverage_offset      (u16), // coverageOffset
         backward_glyph_count (u16), // backtrackGlyphCount
 
-- 
2.43.0


From 540d85cb383ca7da5e017a5eb0d36e2e5ba59f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 08/13] fix: refuse color palettes reaching outside the colors

---
 src/tables/color_palettes.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/tables/color_palettes.rs b/src/tables/color_palettes.rs
index 481456e..f9bd5ac 100644
--- a/src/tables/color_palettes.rs
+++ b/src/tables/color_palettes.rs
@@ -91,10 +91,27 @@ impl crate::value::Read for ColorPalettes {
     fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {
         let position = tape.position()?;
         let header = tape.take()?;
-        let (offset, count) = match header {
-            Header::Version0(ref header) => (header.color_offset, header.color_count as usize),
-            Header::Version1(ref header) => (header.color_offset, header.color_count as usize),
+        let (offset, count, entry_count, indices) = match header {
+            Header::Version0(ref header) => (
+                header.color_offset,
+                header.color_count as usize,
+                header.entry_count as usize,
+                &header.color_indices,
+            ),
+            Header::Version1(ref header) => (
+                header.color_offset,
+                header.color_count as usize,
+                header.entry_count as usize,
+                &header.color_indices,
+            ),
         };
+        if entry_count > 0 {
+            for index in indices {
+                if *index as usize + entry_count > count {
+                    raise!("found a malformed color palette");
+                }
+            }
+        }
         let colors = jump_take_given!(@unwrap tape, position, offset, count);
         Ok(Self { header, colors })
     }
-- 
2.43.0


From ac741b99707073f91e1490d979f5af438a177a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 09/13] fix: take null offsets of sequence rule sets for empty
 ones

---
 src/layout/context.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/layout/context.rs b/src/layout/context.rs
index 9cd7279..5cfabcb 100644
--- a/src/layout/context.rs
+++ b/src/layout/context.rs
@@ -33,7 +33,9 @@ table! {
         },
 
         records (Vec<Records>) |this, tape, position| {
-            jump_take!(tape, position, this.record_count, this.record_offsets)
+            let records: Vec<Option<Records>> =
+                jump_take_maybe!(@unwrap tape, position, this.record_count, i => this.record_offsets[i]);
+            Ok(records.into_iter().map(Option::unwrap_or_default).collect())
         },
     }
 }
@@ -115,7 +117,9 @@ table! {
         },
 
         records (Vec<ChainedRecords>) |this, tape, position| {
-            jump_take!(tape, position, this.record_count, this.record_offsets)
+            let records: Vec<Option<ChainedRecords>> =
+                jump_take_maybe!(@unwrap tape, position, this.record_count, i => this.record_offsets[i]);
+            Ok(records.into_iter().map(Option::unwrap_or_default).collect())
         },
     }
 }
-- 
2.43.0


From 1e3b90a1d526bc71c8b5795cd555574cfd25132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 10/13] fix: refuse directories without a list unless told
 otherwise

---
 src/layout/directory.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/layout/directory.rs b/src/layout/directory.rs
index 5158ee9..2b9e860 100644
--- a/src/layout/directory.rs
+++ b/src/layout/directory.rs
@@ -39,6 +39,10 @@ where
             _ => 0,
         };
         #[cfg(not(feature = "ignore-incomplete-directories"))]
+        if script_offset == 0 || feature_offset == 0 || lookup_offset == 0 {
+            raise!("found an incomplete directory table");
+        }
+        #[cfg(not(feature = "ignore-incomplete-directories"))]
         let (scripts, features, lookups) = (
             jump_take!(@unwrap tape, position, script_offset),
             jump_take!(@unwrap tape, position, feature_offset),
-- 
2.43.0


From 16ba6f536012058d12fa5d67d27f54af459a07e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 11/13] fix: refuse marks without an anchor unless told
 otherwise

---
 src/tables/glyph_positioning/element.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tables/glyph_positioning/element.rs b/src/tables/glyph_positioning/element.rs
index d7de009..a27f44a 100644
--- a/src/tables/glyph_positioning/element.rs
+++ b/src/tables/glyph_positioning/element.rs
@@ -331,6 +331,10 @@ impl crate::walue::Read<'static> for Mark1 {
         let class_id = tape.take()?;
         let anchor_offset = tape.take()?;
         #[cfg(not(feature = "ignore-incomplete-marks"))]
+        if anchor_offset == 0 {
+            raise!("found a mark record without an anchor");
+        }
+        #[cfg(not(feature = "ignore-incomplete-marks"))]
         let anchor = tape.stay(|tape| jump_take!(tape, position, anchor_offset))?;
         #[cfg(feature = "ignore-incomplete-marks")]
         let anchor = tape
-- 
2.43.0


From f8940928e3dfe22f468ab4a34d6a5f334e75f11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 12/13] fix: do not overflow on the size of a table when
 verifying it

---
 src/font.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/font.rs b/src/font.rs
index 026ca17..15b0ca8 100644
--- a/src/font.rs
+++ b/src/font.rs
@@ -36,7 +36,7 @@ impl Font {
         for record in &self.offsets.records {
             if record.tag == tag {
                 #[cfg(not(feature = "ignore-invalid-checksums"))]
-                if record.checksum != record.checksum(tape)? {
+                if record.size > u32::MAX - 4 || record.checksum != record.checksum(tape)? {
                     raise!("found a malformed font table with {:?}", record.tag);
                 }
                 Read::jump(tape, record.offset as u64)?;
-- 
2.43.0


From 74b2a1987bfb3134a1f5105874406803aa23f17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:21 +0000
Subject: [PATCH 13/13] fix: do not reserve memory for item deltas before
 reading them

The number of deltas of an item variation subtable is a product of 16-bit
counts; a few bytes could thus request over six gigabytes at once, which
aborts the process where memory is limited and overflows where pointers
have 32 bits.
---
 src/variations/item.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/variations/item.rs b/src/variations/item.rs
index 99a5203..e3cce6e 100644
--- a/src/variations/item.rs
+++ b/src/variations/item.rs
@@ -31,7 +31,14 @@ table! {
 
         deltas (Vec<u8>) |this, tape| { // deltaSets
             let per_item_count = this.short_delta_count as usize + this.region_count as usize;
-            tape.take_given(this.item_count as usize * per_item_count)
+            let count = this.item_count as u64 * per_item_count as u64;
+            // The count is not to be trusted with memory until the deltas have been seen.
+            let mut deltas = Vec::new();
+            let mut tape = std::io::Read::take(std::io::Read::by_ref(tape), count);
+            if (std::io::Read::read_to_end(&mut tape, &mut deltas)? as u64) < count {
+                return Err(std::io::ErrorKind::UnexpectedEof.into());
+            }
+            Ok(deltas)
         },
     }
 }
-- 
2.43.0

