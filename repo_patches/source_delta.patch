From 54773b931337c7a02726bc9dcecdb92191e14f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 01/29] fix: read2_unaligned returned zeros for 32 bit wide
 values

---
 src/unaligned_rw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unaligned_rw.rs b/src/unaligned_rw.rs
index 05ff6a4..16a398e 100644
--- a/src/unaligned_rw.rs
+++ b/src/unaligned_rw.rs
@@ -55,7 +55,7 @@ impl<R: Read> UnalignedReader<R> {
         if mode.0 == 0 {
             return Ok((0, 0));
         }
-        if mode.0 > (u64::BITS / 2) as u8 {
+        if mode.0 >= (u64::BITS / 2) as u8 {
             Ok((self.read_unaligned(mode)?, self.read_unaligned(mode)?))
         } else {
             let read_size = UnalignedRWMode(mode.0 * 2);
-- 
2.43.0


From b66374522d7acd05a7bf458bb7c915c08675c3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 02/29] fix: read_unaligned returned zeros for 64 bit (and
 wider) values without consuming them

---
 src/unaligned_rw.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/unaligned_rw.rs b/src/unaligned_rw.rs
index 16a398e..a174b1f 100644
--- a/src/unaligned_rw.rs
+++ b/src/unaligned_rw.rs
@@ -96,9 +96,22 @@ impl<R: Read> UnalignedReader<R> {
     }
     /// Reads *mode.0* bits from self, keeping internal alignment
     pub fn read_unaligned(&mut self, mode: UnalignedRWMode) -> Result<u64> {
-        if mode.0 == 0 || mode.0 >= u64::BITS as u8 {
+        if mode.0 == 0 {
             return Ok(0);
         };
+        // A shift by the full width of the result is not possible, so read 64 bit values in two halves.
+        if mode.0 == u64::BITS as u8 {
+            const HALF: UnalignedRWMode = UnalignedRWMode::precision_bits((u64::BITS / 2) as u8);
+            let high = self.read_unaligned(HALF)?;
+            let low = self.read_unaligned(HALF)?;
+            return Ok((high << (u64::BITS / 2)) | low);
+        }
+        if mode.0 > u64::BITS as u8 {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                "Values wider than 64 bits can't be read",
+            ));
+        }
         // Prepare result integer, in which read result is stored.
         let mut res: u64 = 0;
         // Total bits remaining to read
-- 
2.43.0


From 089e06a596c488f5c0fbb2dc5159eeae8e114715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 03/29] fix: read_pair_unaligned split its bits at the wrong
 place, read3_unaligned overflowed for width 0

---
 src/unaligned_rw.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/unaligned_rw.rs b/src/unaligned_rw.rs
index a174b1f..86a1667 100644
--- a/src/unaligned_rw.rs
+++ b/src/unaligned_rw.rs
@@ -70,18 +70,21 @@ impl<R: Read> UnalignedReader<R> {
         mode1: UnalignedRWMode,
         mode2: UnalignedRWMode,
     ) -> Result<(u64, u64)> {
-        if mode1.0 + mode2.0 > u64::BITS as u8 {
+        if mode1.0 == 0
+            || mode2.0 == 0
+            || mode1.0.saturating_add(mode2.0) >= u64::BITS as u8
+        {
             Ok((self.read_unaligned(mode1)?, self.read_unaligned(mode2)?))
         } else {
             let read_size = UnalignedRWMode(mode1.0 + mode2.0);
             let data = self.read_unaligned(read_size)?;
-            let r1 = data >> mode1.0;
-            let r2 = data << (u64::BITS as u8 - mode1.0) >> (u64::BITS as u8 - mode1.0);
+            let r1 = data >> mode2.0;
+            let r2 = data << (u64::BITS as u8 - mode2.0) >> (u64::BITS as u8 - mode2.0);
             Ok((r1, r2))
         }
     }
     pub fn read3_unaligned(&mut self, mode: UnalignedRWMode) -> Result<(u64, u64, u64)> {
-        if mode.0 > (u64::BITS / 3) as u8 {
+        if mode.0 == 0 || mode.0 > (u64::BITS / 3) as u8 {
             let res_1_2 = self.read2_unaligned(mode)?;
             Ok((res_1_2.0, res_1_2.1, self.read_unaligned(mode)?))
         } else {
-- 
2.43.0


From 7af409ef77feca0fdb1e1545437581258318e1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 04/29] fix: bounding box and increments of saved vertices
 mixed up the axes

---
 src/vertices.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index 9f97f85..33149cd 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -44,10 +44,10 @@ pub fn save_tmf_vertices<W: Write>(
     //Get min and max x,y,z coords
     for vertex in vertices {
         min_x = min_x.min(vertex.0);
-        max_x = max_y.max(vertex.1);
-        min_y = min_z.min(vertex.2);
-        max_y = max_x.max(vertex.0);
-        min_z = min_y.min(vertex.1);
+        max_x = max_x.max(vertex.0);
+        min_y = min_y.min(vertex.1);
+        max_y = max_y.max(vertex.1);
+        min_z = min_z.min(vertex.2);
         max_z = max_z.max(vertex.2);
     }
     writer.write_all(&(min_x as f64).to_le_bytes())?;
@@ -67,7 +67,7 @@ pub fn save_tmf_vertices<W: Write>(
     //Calculate minimal increment
     let inc_x = (shortest_edge / sx) * precision.0;
     let inc_y = (shortest_edge / sy) * precision.0;
-    let inc_z = (shortest_edge / sy) * precision.0;
+    let inc_z = (shortest_edge / sz) * precision.0;
     //Calculate write precision
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
-- 
2.43.0


From 4fed2c588ec30f6ca7228b426ac0cdcc0da58ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 05/29] fix: saving an empty vertex array panicked

---
 src/vertices.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index 33149cd..752f30b 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -34,12 +34,14 @@ pub fn save_tmf_vertices<W: Write>(
     writer: &mut W,
     shortest_edge: FloatType,
 ) -> std::io::Result<()> {
-    let mut min_x = vertices[0].0;
-    let mut max_x = vertices[0].0;
-    let mut min_y = vertices[0].1;
-    let mut max_y = vertices[0].1;
-    let mut min_z = vertices[0].2;
-    let mut max_z = vertices[0].2;
+    // An empty vertex array has no first vertex, its bounding box does not matter.
+    let (first_x, first_y, first_z) = vertices.first().copied().unwrap_or((0.0, 0.0, 0.0));
+    let mut min_x = first_x;
+    let mut max_x = first_x;
+    let mut min_y = first_y;
+    let mut max_y = first_y;
+    let mut min_z = first_z;
+    let mut max_z = first_z;
     writer.write_all(&(vertices.len() as u64).to_le_bytes())?;
     //Get min and max x,y,z coords
     for vertex in vertices {
-- 
2.43.0


From 6acb051b6d5509529d6593b361b8c4ed796d69ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 06/29] fix: axes with an extent below 0.000001 were saved with
 the wrong scale

---
 src/vertices.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index 752f30b..aa80aa0 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -63,9 +63,9 @@ pub fn save_tmf_vertices<W: Write>(
     let sy = max_y - min_y;
     let sz = max_z - min_z;
     // Ensure model size is not 0(prevents bugs)
-    let sx = sx.max(0.000_001);
-    let sy = sy.max(0.000_001);
-    let sz = sz.max(0.000_001);
+    let sx = sx.max(FloatType::MIN_POSITIVE);
+    let sy = sy.max(FloatType::MIN_POSITIVE);
+    let sz = sz.max(FloatType::MIN_POSITIVE);
     //Calculate minimal increment
     let inc_x = (shortest_edge / sx) * precision.0;
     let inc_y = (shortest_edge / sy) * precision.0;
-- 
2.43.0


From d1fff5b0b970a1ed0db46fa24dca7d2080a29ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 07/29] fix: high vertex precisions overflowed, panicked or
 wrapped the biggest coordinate to the smallest

---
 src/vertices.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index aa80aa0..7be51d9 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -74,18 +74,21 @@ pub fn save_tmf_vertices<W: Write>(
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
     let prec_z = (1.0 / inc_z).log2().ceil() as u8;
-    //Ensure precision is never below 1
-    let prec_x = prec_x.max(1);
-    let prec_y = prec_y.max(1);
-    let prec_z = prec_z.max(1);
+    //Ensure precision is never below 1, and never above what can be read back
+    let prec_x = prec_x.clamp(1, u64::BITS as u8 - 1);
+    let prec_y = prec_y.clamp(1, u64::BITS as u8 - 1);
+    let prec_z = prec_z.clamp(1, u64::BITS as u8 - 1);
     // Write precision info
     writer.write_all(&[prec_x])?;
     writer.write_all(&[prec_y])?;
     writer.write_all(&[prec_z])?;
-    // Calculate float save multiplier
-    let mul_x = ((1 << prec_x) - 1) as FloatType;
-    let mul_y = ((1 << prec_y) - 1) as FloatType;
-    let mul_z = ((1 << prec_z) - 1) as FloatType;
+    // Calculate float save multiplier. It may get rounded up, so values must be clamped to the biggest integer.
+    let max_int_x = (1_u64 << prec_x) - 1;
+    let mul_x = max_int_x as FloatType;
+    let max_int_y = (1_u64 << prec_y) - 1;
+    let mul_y = max_int_y as FloatType;
+    let max_int_z = (1_u64 << prec_z) - 1;
+    let mul_z = max_int_z as FloatType;
     // Create unaligned rw modes
     let prec_x = UnalignedRWMode::precision_bits(prec_x);
     let prec_y = UnalignedRWMode::precision_bits(prec_y);
@@ -93,9 +96,9 @@ pub fn save_tmf_vertices<W: Write>(
     // Create writer
     let mut writer = UnalignedWriter::new(writer);
     for vertex in vertices {
-        let x = (((vertex.0 - min_x) / sx) * mul_x) as u64;
-        let y = (((vertex.1 - min_y) / sy) * mul_y) as u64;
-        let z = (((vertex.2 - min_z) / sz) * mul_z) as u64;
+        let x = ((((vertex.0 - min_x) / sx) * mul_x) as u64).min(max_int_x);
+        let y = ((((vertex.1 - min_y) / sy) * mul_y) as u64).min(max_int_y);
+        let z = ((((vertex.2 - min_z) / sz) * mul_z) as u64).min(max_int_z);
 
         writer.write_unaligned(prec_x, x)?;
         writer.write_unaligned(prec_y, y)?;
-- 
2.43.0


From 9de7ba499136dc882d7d9dec3a7ecaef84b2d204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 08/29] fix: custom indices and integers above their declared
 maximum were truncated

---
 src/vertices.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vertices.rs b/src/vertices.rs
index 7be51d9..30d060b 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -187,6 +187,8 @@ pub fn save_triangles<W: Write>(
     writer: &mut W,
 ) -> std::io::Result<()> {
     let min = *triangles.iter().min().unwrap_or(&0);
+    // The declared maximum may be lower than the real one, and indices must never be truncated.
+    let max_index = max_index.max(*triangles.iter().max().unwrap_or(&0) as usize);
     let precision = calc_prec(max_index);
     writer.write_all(&precision.to_le_bytes())?;
     writer.write_all(&(triangles.len() as u64).to_le_bytes())?;
-- 
2.43.0


From db4262b18b8d7f44f9da34643cf900e613d99fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 09/29] fix: reading malformed index segments panicked on
 overflow

---
 src/tmf_importer.rs | 6 +++---
 src/vertices.rs     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tmf_importer.rs b/src/tmf_importer.rs
index 040f45f..fb747db 100644
--- a/src/tmf_importer.rs
+++ b/src/tmf_importer.rs
@@ -276,12 +276,12 @@ pub(crate) fn read_default_triangles<R: std::io::Read>(
     } else {
         for index in 0..(length as usize) / 2 {
             let (i1, i2) = reader.read2_unaligned(precision)?;
-            buf[index * 2].write((i1 + min) as IndexType);
-            buf[index * 2 + 1].write((i2 + min) as IndexType);
+            buf[index * 2].write(i1.wrapping_add(min) as IndexType);
+            buf[index * 2 + 1].write(i2.wrapping_add(min) as IndexType);
         }
         if length % 2 != 0 {
             let i = reader.read_unaligned(precision)?;
-            buf[(length - 1) as usize].write((i + min) as IndexType);
+            buf[(length - 1) as usize].write(i.wrapping_add(min) as IndexType);
         }
     }
     unsafe { data.set_len(length as usize) }
diff --git a/src/vertices.rs b/src/vertices.rs
index 30d060b..cd29f3d 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -215,11 +215,11 @@ pub(crate) fn read_triangles<R: Read>(
     let mut reader = UnalignedReader::new(reader);
     for _ in 0..(length / 2) {
         let (i1, i2) = reader.read2_unaligned(precision)?;
-        res.push((i1 + min) as IndexType);
-        res.push((i2 + min) as IndexType);
+        res.push(i1.wrapping_add(min) as IndexType);
+        res.push(i2.wrapping_add(min) as IndexType);
     }
     for _i in 0..length % 2 {
-        res.push((reader.read_unaligned(precision)? + min) as IndexType);
+        res.push(reader.read_unaligned(precision)?.wrapping_add(min) as IndexType);
     }
     Ok(res.into())
 }
-- 
2.43.0


From 1675b28ea47edd2a9dd262415a9239a9447db5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 10/29] fix: index segments with an impossible precision were
 accepted

---
 src/tmf_importer.rs | 3 +++
 src/vertices.rs     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/tmf_importer.rs b/src/tmf_importer.rs
index fb747db..3291d9e 100644
--- a/src/tmf_importer.rs
+++ b/src/tmf_importer.rs
@@ -261,6 +261,9 @@ pub(crate) fn read_default_triangles<R: std::io::Read>(
     ctx: &crate::tmf_importer::TMFImportContext,
 ) -> Result<(), TMFImportError> {
     let precision_bits = src.read_u8()?;
+    if precision_bits > u64::BITS as u8 {
+        return Err(TMFImportError::InvalidPrecision(precision_bits));
+    }
     let length = src.read_u64()?;
     let min = ctx.read_traingle_min(&mut src)?;
     if length > MAX_SEG_SIZE as u64 {
diff --git a/src/vertices.rs b/src/vertices.rs
index cd29f3d..5e95d15 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -205,6 +205,9 @@ pub(crate) fn read_triangles<R: Read>(
     ctx: &crate::tmf_importer::TMFImportContext,
 ) -> Result<Box<[IndexType]>, TMFImportError> {
     let precision = reader.read_u8()?;
+    if precision > u64::BITS as u8 {
+        return Err(TMFImportError::InvalidPrecision(precision));
+    }
     let length = reader.read_u64()?;
     let min = ctx.read_traingle_min(reader)?;
     if length > MAX_SEG_SIZE as u64 {
-- 
2.43.0


From d3a2f389bb1eaa4828b65eed253b610ebe87ad8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 11/29] fix: high UV precisions and UVs above 1 overflowed,
 panicked or wrapped to wrong values

---
 src/uv.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/uv.rs b/src/uv.rs
index 73b8db9..ad3186a 100644
--- a/src/uv.rs
+++ b/src/uv.rs
@@ -35,15 +35,18 @@ pub fn save_uvs<W: Write>(
     writer: &mut W,
     precision: UvPrecisionMode,
 ) -> std::io::Result<()> {
-    let precision = precision.0;
-    let multpiler = ((1 << precision) - 1) as FloatType;
+    // Precisions over 63 bits can't be read back.
+    let precision = precision.0.min(u64::BITS as u8 - 1);
+    // The multiplier may get rounded up, so values must be clamped to the biggest integer.
+    let max_int = (1_u64 << precision) - 1;
+    let multpiler = max_int as FloatType;
     writer.write_all(&[precision])?;
     writer.write_all(&(uvs.len() as u64).to_le_bytes())?;
     let precision = UnalignedRWMode::precision_bits(precision);
     let mut writer = UnalignedWriter::new(writer);
     for uv in uvs.iter() {
-        let x = (uv.0 * multpiler) as u64;
-        let y = (uv.1 * multpiler) as u64;
+        let x = ((uv.0 * multpiler) as u64).min(max_int);
+        let y = ((uv.1 * multpiler) as u64).min(max_int);
         writer.write_unaligned(precision, x)?;
         writer.write_unaligned(precision, y)?;
     }
-- 
2.43.0


From f01fa953e13fe47a5a2ed99dbed2abeecc60f3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 12/29] fix: custom float and colour data overflowed, wrapped
 or became NaN at extreme precisions

---
 src/custom_data.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index ab95fe6..b129eb2 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -99,9 +99,11 @@ impl CustomData {
                 }
                 let span = max - min;
                 let prec = (span / prec).log2().ceil() as u8;
-                //Ensure precision is never 0(messes up the reader/writer);
-                let prec = prec.max(1);
-                let mul = ((1 << prec) - 1) as FloatType;
+                //Ensure precision is never 0(messes up the reader/writer) and can be read back;
+                let prec = prec.clamp(1, u64::BITS as u8 - 1);
+                // The multiplier may get rounded up, so values must be clamped to the biggest integer.
+                let max_int = (1_u64 << prec) - 1;
+                let mul = max_int as FloatType;
                 target.write_all(&(data.len() as u64).to_le_bytes())?;
                 target.write_all(&(min as f64).to_le_bytes())?;
                 target.write_all(&(max as f64).to_le_bytes())?;
@@ -109,7 +111,7 @@ impl CustomData {
                 let prec = UnalignedRWMode::precision_bits(prec);
                 let mut writer = UnalignedWriter::new(target);
                 for entry in data.iter() {
-                    let entry = (((entry - min) / span) * mul) as u64;
+                    let entry = ((((entry - min) / span) * mul) as u64).min(max_int);
                     writer.write_unaligned(prec, entry)?;
                 }
                 Ok(())
@@ -117,16 +119,20 @@ impl CustomData {
             Self::CustomColorRGBA(data, prec) => {
                 use crate::unaligned_rw::{UnalignedRWMode, UnalignedWriter};
                 let prec_bits = (1.0 / prec.min(1.0)).log2().ceil() as u8;
-                let mul = ((1 << prec_bits) - 1) as FloatType;
+                //Ensure precision is never 0(can't be read back) and never too high to be read back;
+                let prec_bits = prec_bits.clamp(1, u64::BITS as u8 - 1);
+                // The multiplier may get rounded up, so values must be clamped to the biggest integer.
+                let max_int = (1_u64 << prec_bits) - 1;
+                let mul = max_int as FloatType;
                 target.write_all(&(data.len() as u64).to_le_bytes())?;
                 target.write_all(&[prec_bits])?;
                 let prec = UnalignedRWMode::precision_bits(prec_bits);
                 let mut writer = UnalignedWriter::new(target);
                 for entry in data.iter() {
-                    let entry_r = (entry.0 * mul) as u64;
-                    let entry_g = (entry.1 * mul) as u64;
-                    let entry_b = (entry.2 * mul) as u64;
-                    let entry_a = (entry.3 * mul) as u64;
+                    let entry_r = ((entry.0 * mul) as u64).min(max_int);
+                    let entry_g = ((entry.1 * mul) as u64).min(max_int);
+                    let entry_b = ((entry.2 * mul) as u64).min(max_int);
+                    let entry_a = ((entry.3 * mul) as u64).min(max_int);
                     writer.write_unaligned(prec, entry_r)?;
                     writer.write_unaligned(prec, entry_g)?;
                     writer.write_unaligned(prec, entry_b)?;
-- 
2.43.0


From 708b3d701d75c9b53ba73f4f1a68b6993ee86c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 13/29] fix: malformed colour segments panicked the reader

---
 src/custom_data.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index b129eb2..49970d4 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -255,7 +255,13 @@ impl CustomDataSegment {
             SectionType::CustomColorRGBASegment => {
                 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader};
                 let len = src.read_u64()?;
+                if len > MAX_SEG_SIZE as u64 {
+                    return Err(TMFImportError::SegmentTooLong);
+                }
                 let prec_bits = src.read_u8()?;
+                if prec_bits >= u64::BITS as u8 {
+                    return Err(TMFImportError::InvalidPrecision(prec_bits));
+                }
                 let prec = UnalignedRWMode::precision_bits(prec_bits);
                 let mut reader = UnalignedReader::new(src);
                 let mut res = vec![(0.0, 0.0, 0.0, 0.0); len as usize];
-- 
2.43.0


From 21c61790d3f52d20bb280ad021a9ad1dd1e93938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 14/29] fix: normals slightly longer than 1 wrapped around,
 extreme normal precisions panicked

---
 src/normals.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/normals.rs b/src/normals.rs
index 9282d50..2f7e4f8 100644
--- a/src/normals.rs
+++ b/src/normals.rs
@@ -22,7 +22,7 @@ impl NormalPrecisionMode {
     /// let dev_5_deg = NormalPrecisionMode::from_deg_dev(5.0);
     /// ```
     pub fn from_deg_dev(deg: FloatType) -> Self {
-        let prec = ((90.0 / deg).log2().ceil() as u8).max(1);
+        let prec = ((90.0 / deg).log2().ceil() as u8).clamp(1, u64::BITS as u8 - 1);
         Self(prec)
     }
     /// Creates NormalPrecisionMode from maximal allowed deviation angle in radians, for degrees use [`Self::from_deg_dev`]
@@ -34,7 +34,7 @@ impl NormalPrecisionMode {
     /// let dev_0_point_05_rad = NormalPrecisionMode::from_rad_dev(0.05);
     /// ```
     pub fn from_rad_dev(rad: FloatType) -> Self {
-        let prec = (FRAC_PI_2 / rad).log2().ceil() as u8;
+        let prec = ((FRAC_PI_2 / rad).log2().ceil() as u8).clamp(1, u64::BITS as u8 - 1);
         Self(prec)
     }
     pub(crate) fn bits(&self) -> u8 {
@@ -68,7 +68,9 @@ pub(crate) fn normal_to_encoding(
     normal: Vector3,
     precision: &NormalPrecisionMode,
 ) -> (u64, u64, bool, bool, bool) {
-    let multiplier = ((1 << precision.0) - 1) as FloatType;
+    // The multiplier may get rounded up and normals may be slightly too long, so values must be clamped to the biggest integer.
+    let max_int = (1_u64 << precision.0) - 1;
+    let multiplier = max_int as FloatType;
     //Calculate asine
     let xy = (normal.0.abs(), normal.1.abs());
     let xy_mag = (xy.0 * xy.0 + xy.1 * xy.1).sqrt();
@@ -77,8 +79,8 @@ pub(crate) fn normal_to_encoding(
 
     let asine = asine / (PI / 2.0);
     //
-    let asine = (asine * multiplier) as u64;
-    let z = (normal.2.abs() * multiplier) as u64;
+    let asine = ((asine * multiplier) as u64).min(max_int);
+    let z = ((normal.2.abs() * multiplier) as u64).min(max_int);
     let sx = normal.0 < 0.0;
     let sy = normal.1 < 0.0;
     let sz = normal.2 < 0.0;
-- 
2.43.0


From 0ff851bbdf65536f7b764231b254107d2763410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 15/29] fix: fast_trig decoded normals along the x axis to NaN

---
 src/normals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normals.rs b/src/normals.rs
index 2f7e4f8..23e2abb 100644
--- a/src/normals.rs
+++ b/src/normals.rs
@@ -110,7 +110,7 @@ pub(crate) fn normal_from_encoding(
     #[cfg(feature = "fast_trig")]
     let x = fsin(asine as fprec) as FloatType;
     #[cfg(feature = "fast_trig")]
-    let y = (1.0 - x * x).sqrt();
+    let y = (1.0 - x * x).max(0.0).sqrt();
     #[cfg(not(feature = "fast_trig"))]
     let (x, y) = asine.sin_cos();
     // Calculate XY magnitude
-- 
2.43.0


From b0466a6d959fd84235950812cde60e40240187a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 16/29] fix: mesh names over 65535 bytes produced unreadable
 files

---
 src/tmf_exporter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index 0f59737..f957ab3 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -65,6 +65,12 @@ fn calc_shortest_edge(
 
 pub(crate) fn write_mesh_name<W: std::io::Write>(w: &mut W, s: &str) -> std::io::Result<()> {
     let bytes = s.as_bytes();
+    if bytes.len() > u16::MAX as usize {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            "Mesh name is too long to be saved",
+        ));
+    }
     w.write_all(&(bytes.len() as u16).to_le_bytes())?;
     w.write_all(bytes)
 }
-- 
2.43.0


From 18106fc2a2c0c359f9f45159e0018ba2bd2082fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 17/29] fix: too many or too long segments produced unreadable
 files

---
 src/tmf.rs          | 6 ++++++
 src/tmf_exporter.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/tmf.rs b/src/tmf.rs
index 3029058..71e957b 100644
--- a/src/tmf.rs
+++ b/src/tmf.rs
@@ -130,6 +130,12 @@ impl EncodedSegment {
         self.seg_type
     }
     pub(crate) fn write<W: std::io::Write>(&self, w: &mut W) -> std::io::Result<()> {
+        if self.data.len() > crate::MAX_SEG_SIZE {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                "Segment is too long to be saved",
+            ));
+        }
         let st: u8 = self.seg_type as u16 as u8;
         w.write_all(&[st])?;
         w.write_all(&(self.data.len() as u32).to_le_bytes())?;
diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index f957ab3..6826404 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -111,6 +111,12 @@ async fn write_mesh<W: std::io::Write>(
         encoded.push(seg.encode(p_info, &ei));
     }
     let encoded = futures::future::join_all(encoded).await;
+    if encoded.len() > u16::MAX as usize {
+        return Err(TMFExportError::IO(std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            "Mesh has too many segments to be saved",
+        )));
+    }
     target.write_all(&(encoded.len() as u16).to_le_bytes())?;
     for seg in encoded {
         seg?.write(target)?;
-- 
2.43.0


From 44a12133aff8af58b53d3f7baa0e594e163cf4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 18/29] fix: saving reversed the order of custom data segments

---
 src/tmf_exporter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index 6826404..410a8f1 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -85,6 +85,8 @@ fn merge_segments(segments: &[DecodedSegment]) -> Box<[DecodedSegment]> {
             new_segments.push(segment);
         }
     }
+    // Segments were taken from the end, restore their order.
+    new_segments.reverse();
     new_segments.into()
 }
 async fn write_mesh<W: std::io::Write>(
-- 
2.43.0


From 003c6ea2b562a82c011be89bfa101e79873a6140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 19/29] fix: verify accepted indices equal to the array length

---
 src/verify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verify.rs b/src/verify.rs
index a68f0e8..0f96516 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -61,7 +61,7 @@ impl std::fmt::Debug for TMFIntegrityStatus {
 /// Checks if indices fit inside the array of *length*, returned None if so or Some(index) if not.
 fn indices_inside_array(array: &[IndexType], length: IndexType) -> Option<IndexType> {
     for index in array {
-        if *index > length as IndexType {
+        if *index >= length as IndexType {
             return Some(*index);
         }
     }
-- 
2.43.0


From 97ff09486125d27abffc5e47c00abfd40580feed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 20/29] fix: verify never rejected UVs outside of the allowed
 range

---
 src/verify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verify.rs b/src/verify.rs
index 0f96516..61f7317 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -99,7 +99,7 @@ fn verify_uvs(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
         }
         Some(uvs) => {
             for uv in uvs {
-                if uv.0 < 0.0 && uv.1 < 0.0 && uv.0 > 1.0 && uv.1 > 1.0 {
+                if !(uv.0 >= 0.0 && uv.1 >= 0.0 && uv.0 <= 1.0 && uv.1 <= 1.0) {
                     return Err(TMFIntegrityStatus::UVOutsideRange(uv.0, uv.1));
                 }
             }
-- 
2.43.0


From 9cef44b648e633aea70c9d749e830b74d9050528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 21/29] fix: verify accepted NaN normals

---
 src/verify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verify.rs b/src/verify.rs
index 61f7317..60f176b 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -128,7 +128,7 @@ fn verify_normals(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
         }
         Some(normals) => {
             for normal in normals {
-                if (1.0 - magnitude(*normal)).abs() > 0.001 {
+                if !((1.0 - magnitude(*normal)).abs() <= 0.001) {
                     return Err(TMFIntegrityStatus::NormalsNotNormalized);
                 }
             }
-- 
2.43.0


From 1884f1a72266bf6f6fbc177b56152ccb932050ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 22/29] fix: normalizing a zero length vector gave NaNs

---
 src/utilis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utilis.rs b/src/utilis.rs
index 1afb596..f67f055 100644
--- a/src/utilis.rs
+++ b/src/utilis.rs
@@ -54,7 +54,7 @@ pub(crate) fn normalize(i: Vector3) -> Vector3 {
     let yy = i.1 * i.1;
     let zz = i.2 * i.2;
     let mag = (xx + yy + zz).sqrt();
-    if mag.is_nan() {
+    if mag.is_nan() || mag == 0.0 {
         (0.0, 0.0, 0.0)
     } else {
         (i.0 / mag, i.1 / mag, i.2 / mag)
-- 
2.43.0


From 74619aa5dbfe145bd62e5aa75c6be1ae9d66997f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 23/29] fix: objects without faces broke the indices of later
 objects in saved .obj files

---
 src/obj.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/obj.rs b/src/obj.rs
index 665f30c..63dfeb4 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -156,7 +156,12 @@ fn save_obj<W: Write>(
                     "If vertex triangles data is not present, uv triangle data must not be present either!",
                 ));
             }
-            return Ok((0, 0, 0));
+            // No faces to write, but the data written above still shifts the indices of the next objects.
+            return Ok((
+                vertex_count as IndexType,
+                mesh.get_uvs().map_or(0, <[_]>::len) as IndexType,
+                mesh.get_normals().map_or(0, <[_]>::len) as IndexType,
+            ));
         }
     };
     // Ensure normal triangle array, if present, has the right length.
-- 
2.43.0


From 7fa817bc97ca6fededf8a077541c432a3f86c43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 24/29] fix: triangulation wrapped around polygons of 5 and
 more corners to the wrong corner

---
 src/triangulation.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/triangulation.rs b/src/triangulation.rs
index bde76a0..1f321e7 100644
--- a/src/triangulation.rs
+++ b/src/triangulation.rs
@@ -37,9 +37,9 @@ fn calc_ear_val_at_index(
     vertices: &[Vector3],
 ) -> FloatType {
     let tri = (
-        index.wrapping_sub(1) % indices.len(),
+        (index + indices.len() - 1) % indices.len(),
         index,
-        index.wrapping_add(1) % indices.len(),
+        (index + 1) % indices.len(),
     );
     let p0 = indices[tri.0] as usize;
     let p1 = indices[tri.1] as usize;
@@ -66,9 +66,9 @@ fn triangulate(
                 best_index = index;
             }
         }
-        let prev_index = best_index.wrapping_sub(1) % vertex_indices.len();
+        let prev_index = (best_index + vertex_indices.len() - 1) % vertex_indices.len();
         let curr_index = best_index;
-        let next_index = best_index.wrapping_add(1) % vertex_indices.len();
+        let next_index = (best_index + 1) % vertex_indices.len();
         
         mi.push_vertex_index(vertex_indices[prev_index]);
         mi.push_vertex_index(vertex_indices[curr_index]);
@@ -89,7 +89,7 @@ fn triangulate(
         ear_vals.remove(curr_index);
         
         let curr_index = curr_index % vertex_indices.len();
-        let prev_index = best_index.wrapping_sub(1) % vertex_indices.len();
+        let prev_index = (best_index + vertex_indices.len() - 1) % vertex_indices.len();
         ear_vals[curr_index] = calc_ear_val_at_index(&vertex_indices, curr_index, &mi.vertices);
         ear_vals[prev_index] = calc_ear_val_at_index(&vertex_indices, prev_index, &mi.vertices);
         
-- 
2.43.0


From bddcf0dae1e103c3bae319333c9435d1a32588c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 25/29] fix: triangulating a face with an out of range vertex
 index panicked

---
 src/model_importer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/model_importer.rs b/src/model_importer.rs
index 7a3e8b3..2c7e5b3 100644
--- a/src/model_importer.rs
+++ b/src/model_importer.rs
@@ -137,6 +137,13 @@ impl ModelImporter {
                 }
                 #[cfg(feature = "triangulation")]
                 {
+                    // Triangulation needs the positions of all corners.
+                    if vertex_indices
+                        .iter()
+                        .any(|index| *index as usize >= self.vertices.len())
+                    {
+                        return Err("Face uses a vertex that does not exist".to_owned());
+                    }
                     let vertex_indices = SmallVec::from_slice(vertex_indices);
                     let normal_indices = SmallVec::from_slice(normal_indices);
                     let uv_indices = SmallVec::from_slice(uv_indices);
-- 
2.43.0


From 7f06cd6e7791a8fa913a9f6de8c69bc98971157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 26/29] fix: .obj files without normals or uvs were imported
 with indices into empty arrays

---
 src/model_importer.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/model_importer.rs b/src/model_importer.rs
index 2c7e5b3..bc17eb7 100644
--- a/src/model_importer.rs
+++ b/src/model_importer.rs
@@ -45,12 +45,16 @@ impl ModelImporter {
         crate::utilis::fast_prune(&mut uvs, &mut uv_triangles);
 
         mesh.set_vertices(vertices);
-        mesh.set_normals(normals);
-        mesh.set_uvs(uvs);
-
         mesh.set_vertex_triangles(vertex_triangles);
-        mesh.set_normal_triangles(normal_triangles);
-        mesh.set_uv_triangles(uv_triangles);
+        // Faces without normals or uvs get placeholder indices, which mean nothing without any data.
+        if !normals.is_empty() {
+            mesh.set_normals(normals);
+            mesh.set_normal_triangles(normal_triangles);
+        }
+        if !uvs.is_empty() {
+            mesh.set_uvs(uvs);
+            mesh.set_uv_triangles(uv_triangles);
+        }
 
         self.vertex_triangles.clear();
         self.normal_triangles.clear();
@@ -72,12 +76,16 @@ impl ModelImporter {
         crate::utilis::fast_prune(&mut uvs, &mut uv_triangles);
 
         mesh.set_vertices(vertices);
-        mesh.set_normals(normals);
-        mesh.set_uvs(uvs);
-
         mesh.set_vertex_triangles(vertex_triangles);
-        mesh.set_normal_triangles(normal_triangles);
-        mesh.set_uv_triangles(uv_triangles);
+        // Faces without normals or uvs get placeholder indices, which mean nothing without any data.
+        if !normals.is_empty() {
+            mesh.set_normals(normals);
+            mesh.set_normal_triangles(normal_triangles);
+        }
+        if !uvs.is_empty() {
+            mesh.set_uvs(uvs);
+            mesh.set_uv_triangles(uv_triangles);
+        }
 
         Ok((mesh, self.name))
     }
-- 
2.43.0


From 4b928cca43b82a0790b70d8427542c1e778bfb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 27/29] fix: saving a mesh without a complete triangle or with
 huge edges panicked

---
 src/tmf_exporter.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index 410a8f1..da61942 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -56,11 +56,12 @@ fn calc_shortest_edge(
         // TODO: Calculate distance between closest points for point cloud
         None => 0.1,
     };
-    assert!(
-        shortest_edge.is_finite(),
-        "Shortest edge should be finite but is '{shortest_edge}'!"
-    );
-    shortest_edge
+    // There may be no complete triangle, or all edges may be too long for their length to be represented.
+    if shortest_edge.is_finite() {
+        shortest_edge
+    } else {
+        0.1
+    }
 }
 
 pub(crate) fn write_mesh_name<W: std::io::Write>(w: &mut W, s: &str) -> std::io::Result<()> {
-- 
2.43.0


From 19d7db0f8aa95115fce4d3ae6bf7022f452510d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 28/29] fix: the bit count of huge vertex ranges overflowed
 when looking for a split

---
 src/tmf_exporter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index da61942..be16137 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -293,7 +293,7 @@ pub(crate) fn opt_tris(triangles: &[IndexType]) -> SmallVec<[&[IndexType]; 4]> {
         smallvec![triangles]
     }
 }
-fn range_to_vertex_bit_count(span: std::ops::Range<Vector3>, shortest_edge: FloatType) -> u8 {
+fn range_to_vertex_bit_count(span: std::ops::Range<Vector3>, shortest_edge: FloatType) -> u32 {
     let dx = span.end.0 - span.start.0;
     let dy = span.end.1 - span.start.1;
     let _dz = span.end.2 - span.start.2;
@@ -303,7 +303,8 @@ fn range_to_vertex_bit_count(span: std::ops::Range<Vector3>, shortest_edge: Floa
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
     let prec_z = (1.0 / inc_z).log2().ceil() as u8;
-    prec_x + prec_y + prec_z
+    // Up to 3 * 255, more than fits in an u8.
+    u32::from(prec_x) + u32::from(prec_y) + u32::from(prec_z)
 }
 fn expand_vertex_span(span: std::ops::Range<Vector3>, point: Vector3) -> std::ops::Range<Vector3> {
     let min = span.start;
-- 
2.43.0


From 545f7b545eb70c6823044cf06c8a20f0b0ef24d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:28 +0000
Subject: [PATCH 29/29] fix: saving index arrays with many value jumps
 overflowed the stack or the segment limit

---
 src/tmf_exporter.rs | 46 ++++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index be16137..60f9994 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -239,7 +239,9 @@ fn calc_spilt_score(len: usize, delta_span: (IndexType, IndexType)) -> isize {
         ((TMF_SEG_SIZE + std::mem::size_of::<u8>() + std::mem::size_of::<u32>()) * 8) as isize;
     gain - loss
 }
-pub(crate) fn opt_tris(triangles: &[IndexType]) -> SmallVec<[&[IndexType]; 4]> {
+/// Limit on the amount of segments one index array may be split into. A file can't hold more than 65535 segments per mesh.
+const MAX_TRIANGLE_SPLITS: usize = 1024;
+fn find_best_triangle_split(triangles: &[IndexType]) -> Option<usize> {
     let mut best_score = isize::MIN;
     let mut best_index = usize::MIN;
     let mut max_index = IndexType::MIN;
@@ -253,17 +255,7 @@ pub(crate) fn opt_tris(triangles: &[IndexType]) -> SmallVec<[&[IndexType]; 4]> {
         }
     }
     if best_score > 0 {
-        let mut res = SmallVec::new();
-        let (s1, s2) = triangles.split_at(best_index);
-        let r_1 = opt_tris(s1);
-        for seg in r_1 {
-            res.push(seg);
-        }
-        let r_2 = opt_tris(s2);
-        for seg in r_2 {
-            res.push(seg);
-        }
-        return res;
+        return Some(best_index);
     }
     let mut best_score = isize::MIN;
     let mut best_index = usize::MIN;
@@ -278,20 +270,26 @@ pub(crate) fn opt_tris(triangles: &[IndexType]) -> SmallVec<[&[IndexType]; 4]> {
         }
     }
     if best_score > 0 {
-        let mut res = SmallVec::new();
-        let (s1, s2) = triangles.split_at(best_index);
-        let r_1 = opt_tris(s1);
-        for seg in r_1 {
-            res.push(seg);
-        }
-        let r_2 = opt_tris(s2);
-        for seg in r_2 {
-            res.push(seg);
-        }
-        res
+        Some(best_index)
     } else {
-        smallvec![triangles]
+        None
+    }
+}
+pub(crate) fn opt_tris(triangles: &[IndexType]) -> SmallVec<[&[IndexType]; 4]> {
+    let mut res = SmallVec::new();
+    // Parts which were not split yet, the first one is at the end. Recursion could overflow the stack.
+    let mut remaining = vec![triangles];
+    while let Some(part) = remaining.pop() {
+        match find_best_triangle_split(part) {
+            Some(index) if res.len() + remaining.len() + 1 < MAX_TRIANGLE_SPLITS => {
+                let (s1, s2) = part.split_at(index);
+                remaining.push(s2);
+                remaining.push(s1);
+            }
+            _ => res.push(part),
+        }
     }
+    res
 }
 fn range_to_vertex_bit_count(span: std::ops::Range<Vector3>, shortest_edge: FloatType) -> u32 {
     let dx = span.end.0 - span.start.0;
-- 
2.43.0

