From 7bf31cbaa92b16d19a95a773764f909935f4d3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 01/40] fix: FilterAnyRandomAccessible restricts the view to
 the union of its filters

---
 src/filter_any_random_accessible.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter_any_random_accessible.rs b/src/filter_any_random_accessible.rs
index 601593c..3024599 100644
--- a/src/filter_any_random_accessible.rs
+++ b/src/filter_any_random_accessible.rs
@@ -24,6 +24,8 @@ OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 use crate::*;
 
+use std::collections::HashSet;
+
 //------------------------------------------------------------------------------
 
 #[derive(Default)]
@@ -41,6 +43,7 @@ where
 {
     fn filter(&self, ra: &RA, view: &mut View) {
         let view_initial = view.clone();
+        *view = View::Restricted(HashSet::new());
         for f in &self.filters {
             let mut view_now = view_initial.clone();
             f.filter(&ra, &mut view_now);
-- 
2.43.0


From 441bc7ed5d8dd8c09ba2b97a970224966fc7be4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 02/40] fix: Sphere and FilterSphere report their centre's z,
 not y

---
 src/filter_sphere.rs | 2 +-
 src/sphere.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter_sphere.rs b/src/filter_sphere.rs
index c994523..4510843 100644
--- a/src/filter_sphere.rs
+++ b/src/filter_sphere.rs
@@ -62,7 +62,7 @@ impl Is3D for FilterSphere {
 
     #[inline(always)]
     fn z(&self) -> f64 {
-        self.sphere.y()
+        self.sphere.z()
     }
 }
 
diff --git a/src/sphere.rs b/src/sphere.rs
index 7db25d6..834976f 100644
--- a/src/sphere.rs
+++ b/src/sphere.rs
@@ -73,7 +73,7 @@ impl Is3D for Sphere {
 
     #[inline(always)]
     fn z(&self) -> f64 {
-        self.center.y()
+        self.center.z()
     }
 }
 
-- 
2.43.0


From a995dc5e369865ba98c3b47bfae42efff40741e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 03/40] fix: BoxUnaligned3D uses half of its size for corners
 and encloses them in its bounding box

---
 src/box_unaligned_3d.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/box_unaligned_3d.rs b/src/box_unaligned_3d.rs
index 7f4f2f1..d57cb95 100644
--- a/src/box_unaligned_3d.rs
+++ b/src/box_unaligned_3d.rs
@@ -68,15 +68,15 @@ impl BoxUnaligned3D {
         }
     }
     fn d_x(&self) -> Point3D {
-        let d = *self.size[0];
+        let d = 0.5 * *self.size[0];
         Point3D::new_from(&self.x_dir()) * d
     }
     fn d_y(&self) -> Point3D {
-        let d = *self.size[1];
+        let d = 0.5 * *self.size[1];
         Point3D::new_from(&self.y_dir) * d
     }
     fn d_z(&self) -> Point3D {
-        let d = *self.size[2];
+        let d = 0.5 * *self.size[2];
         Point3D::new_from(&self.z_dir) * d
     }
     pub fn x_dir(&self) -> Norm3D {
@@ -129,24 +129,21 @@ impl IsSATObject for BoxUnaligned3D {
 
 impl HasBoundingBox3D for BoxUnaligned3D {
     fn bounding_box(&self) -> BoundingBox3D {
-        let mut max_size = self.size[0];
-        if self.size[1] > max_size {
-            max_size = self.size[1]
-        }
-        if self.size[2] > max_size {
-            max_size = self.size[2]
-        }
+        let (dx, dy, dz) = (self.d_x(), self.d_y(), self.d_z());
+        let ex = dx.x().abs() + dy.x().abs() + dz.x().abs();
+        let ey = dx.y().abs() + dy.y().abs() + dz.y().abs();
+        let ez = dx.z().abs() + dy.z().abs() + dz.z().abs();
 
         BoundingBox3D::new(
             &Point3D::new(
-                self.center.x() - 0.5 * *max_size,
-                self.center.y() - 0.5 * *max_size,
-                self.center.z() - 0.5 * *max_size,
+                self.center.x() - ex,
+                self.center.y() - ey,
+                self.center.z() - ez,
             ),
             &Point3D::new(
-                self.center.x() + 0.5 * *max_size,
-                self.center.y() + 0.5 * *max_size,
-                self.center.z() + 0.5 * *max_size,
+                self.center.x() + ex,
+                self.center.y() + ey,
+                self.center.z() + ez,
             ),
         )
         .unwrap() //@todo unwrap, see above
-- 
2.43.0


From e3db20b0f68f4e7fed9d60703ec2837a677edc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:54 +0000
Subject: [PATCH 04/40] fix: PointCloud3Df32 with two points has a bounding box

---
 src/point_cloud_3d_f32.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/point_cloud_3d_f32.rs b/src/point_cloud_3d_f32.rs
index 290b541..fab9bcc 100644
--- a/src/point_cloud_3d_f32.rs
+++ b/src/point_cloud_3d_f32.rs
@@ -130,7 +130,7 @@ where
         let d = &self.data;
         let n_p = d.len() / 3;
 
-        if n_p <= 2 {
+        if n_p < 2 {
             return None;
         }
 
-- 
2.43.0


From 087b482af8ec57de79197facb5ad19148c56d207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:57 +0000
Subject: [PATCH 05/40] fix: keep the last byte of a text file without trailing
 newline

---
 src/io/utils.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/io/utils.rs b/src/io/utils.rs
index f5d116b..4969dc6 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -99,10 +99,9 @@ where
         return Err(FetchLineError);
     }
 
-    // We must drop the '\n' we read_until for sure
-    // And might also have to drop additional whitespace
-    let mut ignore_end = 1;
-    for i in 1..line_buffer.len() {
+    // Drop the '\n' (which the last line might not have) and additional whitespace
+    let mut ignore_end = 0;
+    for i in 0..line_buffer.len() {
         if (line_buffer[line_buffer.len() - i - 1] as char).is_whitespace() {
             ignore_end += 1;
         } else {
-- 
2.43.0


From 8ac741ea28d3999d35b5179052b8ceec2bf4141b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:15 +0000
Subject: [PATCH 06/40] fix: decode the position properties of a .ply vertex by
 their order of appearance

---
 src/io/ply/header.rs | 47 +++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index 08fbd6b..510cb25 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -42,7 +42,6 @@ where
     R: BufRead,
 {
     let mut vertex_order = [Xyz::X, Xyz::X, Xyz::X];
-    let mut i_vertex_order = 0;
 
     let mut ply_found = false;
     let mut read_state = HeaderReadState::Meta;
@@ -50,9 +49,8 @@ where
     let mut opt_n_vertices: Option<usize> = None;
     let mut opt_n_faces: Option<usize> = None;
 
-    let mut opt_fst_type = None;
-    let mut opt_snd_type = None;
-    let mut opt_third_type = None;
+    // in order of appearance
+    let mut vertex_types = [None, None, None];
     let mut n_types_found = 0;
     let mut vertex_before = BytesWords::default();
     let mut vertex_between_first_snd = BytesWords::default();
@@ -144,21 +142,19 @@ where
                         .next()
                         .ok_or(PlyError::InvalidProperty)
                         .line(*i_line, line)?;
-                    if id == b"x" {
-                        opt_fst_type = Some(VertexType::try_from(t).line(*i_line, line)?);
-                        n_types_found += 1;
-                        vertex_order[i_vertex_order] = Xyz::X;
-                        i_vertex_order += 1;
-                    } else if id == b"y" {
-                        opt_snd_type = Some(VertexType::try_from(t).line(*i_line, line)?);
-                        n_types_found += 1;
-                        vertex_order[i_vertex_order] = Xyz::Y;
-                        i_vertex_order += 1;
-                    } else if id == b"z" {
-                        opt_third_type = Some(VertexType::try_from(t).line(*i_line, line)?);
+                    if id == b"x" || id == b"y" || id == b"z" {
+                        if n_types_found == vertex_order.len() {
+                            return Err(PlyError::InvalidVertexDimensionDefinition)
+                                .line(*i_line, line);
+                        }
+                        vertex_types[n_types_found] =
+                            Some(VertexType::try_from(t).line(*i_line, line)?);
+                        vertex_order[n_types_found] = match id {
+                            b"x" => Xyz::X,
+                            b"y" => Xyz::Y,
+                            _ => Xyz::Z,
+                        };
                         n_types_found += 1;
-                        vertex_order[i_vertex_order] = Xyz::Z;
-                        i_vertex_order += 1;
                     } else if n_types_found == 0 {
                         vertex_before.bytes += t.size_bytes();
                         vertex_before.words += 1;
@@ -221,7 +217,14 @@ where
         }
 
         if line == b"end_header" && ply_found {
-            if let (Some(format), Some(n_vertices), Some(x_type), Some(y_type), Some(z_type)) = (
+            let [opt_fst_type, opt_snd_type, opt_third_type] = vertex_types;
+            if let (
+                Some(format),
+                Some(n_vertices),
+                Some(fst_type),
+                Some(snd_type),
+                Some(third_type),
+            ) = (
                 opt_format,
                 opt_n_vertices,
                 opt_fst_type,
@@ -232,9 +235,9 @@ where
                     count: n_vertices,
                     format: VertexFormat {
                         order: VertexOrder::try_from(vertex_order).line(*i_line, line)?,
-                        first: x_type,
-                        snd: y_type,
-                        third: z_type,
+                        first: fst_type,
+                        snd: snd_type,
+                        third: third_type,
                         before: vertex_before,
                         between_first_snd: vertex_between_first_snd,
                         between_snd_third: vertex_between_snd_third,
-- 
2.43.0


From 2c536fda9161aab544e0b167faf5bd45eefbc99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 07/40] fix: report I/O errors of the input while loading text
 files

---
 src/io/gcode.rs                  |  9 ++++++++-
 src/io/obj.rs                    | 18 ++++++++++++++++--
 src/io/off.rs                    | 18 ++++++++++++++++--
 src/io/ply/header.rs             |  3 ++-
 src/io/ply/iterators_internal.rs | 18 ++++++++++++++++--
 src/io/pts.rs                    |  9 ++++++++-
 src/io/ptx.rs                    | 19 ++++++++++++-------
 src/io/utils.rs                  | 24 ++++++++++++++++++++----
 src/io/xy.rs                     |  9 ++++++++-
 src/io/xyz.rs                    |  9 ++++++++-
 10 files changed, 114 insertions(+), 22 deletions(-)

diff --git a/src/io/gcode.rs b/src/io/gcode.rs
index e4fc1f1..3bc7507 100644
--- a/src/io/gcode.rs
+++ b/src/io/gcode.rs
@@ -85,7 +85,14 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        while let Some(line) = next_line(&mut self.read, &mut self.line_buffer) {
+            let line = match line {
+                Ok(line) => line,
+                Err(e) => {
+                    self.is_done = true;
+                    return Some(Err(GcodeError::from(e)).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.len() >= 4 && line[0] == b'G' {
diff --git a/src/io/obj.rs b/src/io/obj.rs
index af7ab3b..87fb7af 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -75,7 +75,14 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        while let Some(line) = next_line(&mut self.read, &mut self.line_buffer) {
+            let line = match line {
+                Ok(line) => line,
+                Err(e) => {
+                    self.is_done = true;
+                    return Some(Err(ObjError::from(e)).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.starts_with(b"v ") {
@@ -141,7 +148,14 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        while let Some(line) = next_line(&mut self.read, &mut self.line_buffer) {
+            let line = match line {
+                Ok(line) => line,
+                Err(e) => {
+                    self.is_done = true;
+                    return Some(Err(ObjError::from(e)).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.starts_with(b"v ") {
diff --git a/src/io/off.rs b/src/io/off.rs
index 1b506af..26ccefd 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -82,7 +82,14 @@ where
             return None;
         }
 
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        while let Some(line) = next_line(&mut self.read, &mut self.line_buffer) {
+            let line = match line {
+                Ok(line) => line,
+                Err(e) => {
+                    self.is_done = true;
+                    return Some(Err(OffError::from(e)).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if !self.off_seen && line.starts_with(b"OFF") {
@@ -235,7 +242,14 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        while let Some(line) = next_line(&mut self.read, &mut self.line_buffer) {
+            let line = match line {
+                Ok(line) => line,
+                Err(e) => {
+                    self.is_done = true;
+                    return Some(Err(OffError::from(e)).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if !self.off_seen && line.starts_with(b"OFF") {
diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index 510cb25..79b543c 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -62,7 +62,8 @@ where
     let mut face_before = BytesWords::default();
     let mut face_after = BytesWords::default();
 
-    while let Ok(line) = fetch_line(read, line_buffer) {
+    while let Some(line) = next_line(read, line_buffer) {
+        let line = line.map_err(PlyError::from).index(*i_line)?;
         *i_line += 1;
 
         if line.starts_with(b"comment") {
diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index 82ab84e..b1aaa92 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -379,7 +379,14 @@ where
         }
         if self.current < self.header.vertex.count {
             self.current += 1;
-            while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+            while let Some(line) = next_line(&mut self.read, &mut self.line_buffer) {
+                let line = match line {
+                    Ok(line) => line,
+                    Err(e) => {
+                        self.is_done = true;
+                        return Some(Err(PlyError::from(e)).index(self.i_line));
+                    }
+                };
                 self.i_line += 1;
                 return Some(
                     Self::fetch_one(&self.header, line)
@@ -451,7 +458,14 @@ where
         }
         if self.current < self.header.face.count {
             self.current += 1;
-            while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+            while let Some(line) = next_line(&mut self.read, &mut self.line_buffer) {
+                let line = match line {
+                    Ok(line) => line,
+                    Err(e) => {
+                        self.is_done = true;
+                        return Some(Err(PlyError::from(e)).index(self.i_line));
+                    }
+                };
                 self.i_line += 1;
                 return Some(
                     collect_index_line(&line)
diff --git a/src/io/pts.rs b/src/io/pts.rs
index 1bec397..bcc0bc8 100644
--- a/src/io/pts.rs
+++ b/src/io/pts.rs
@@ -101,7 +101,14 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        while let Some(line) = next_line(&mut self.read, &mut self.line_buffer) {
+            let line = match line {
+                Ok(line) => line,
+                Err(e) => {
+                    self.is_done = true;
+                    return Some(Err(PtsError::from(e)).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.is_empty() {
diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index e342459..2183e05 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -173,14 +173,19 @@ where
             return None;
         }
         if self.n_points_to_fetch == 0 {
-            let first_line = fetch_line(&mut self.read, &mut self.line_buffer);
-            if first_line.is_err() {
-                self.is_done = true;
-                return None;
-            }
+            let first_line = match next_line(&mut self.read, &mut self.line_buffer) {
+                Some(Ok(line)) => line,
+                Some(Err(e)) => {
+                    self.is_done = true;
+                    return Some(Err(PtxError::from(e)).index(self.i_line));
+                }
+                None => {
+                    self.is_done = true;
+                    return None;
+                }
+            };
             self.i_line += 1;
-            // unwrap safe, is_err() checked above
-            match from_ascii(first_line.as_ref().unwrap())
+            match from_ascii(first_line)
                 .ok_or(PtxError::Columns)
                 .index(self.i_line)
                 .and_then(|columns| self.fetch_header(columns))
diff --git a/src/io/utils.rs b/src/io/utils.rs
index 4969dc6..7300d2e 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -90,13 +90,29 @@ where
 /// Fetch a single line
 #[inline(always)]
 pub fn fetch_line<'a, R>(read: &mut R, line_buffer: &'a mut Vec<u8>) -> FetchLineResult<&'a [u8]>
+where
+    R: BufRead,
+{
+    match next_line(read, line_buffer) {
+        Some(line) => Ok(line?),
+        None => Err(FetchLineError),
+    }
+}
+
+/// Fetch a single line, None if there are no more lines
+#[inline(always)]
+pub fn next_line<'a, R>(
+    read: &mut R,
+    line_buffer: &'a mut Vec<u8>,
+) -> Option<std::io::Result<&'a [u8]>>
 where
     R: BufRead,
 {
     line_buffer.clear();
-    let n_read = read.read_until(b'\n', line_buffer)?;
-    if n_read == 0 {
-        return Err(FetchLineError);
+    match read.read_until(b'\n', line_buffer) {
+        Ok(0) => return None,
+        Ok(_) => {}
+        Err(e) => return Some(Err(e)),
     }
 
     // Drop the '\n' (which the last line might not have) and additional whitespace
@@ -109,7 +125,7 @@ where
         }
     }
 
-    Ok(&line_buffer[0..line_buffer.len() - ignore_end])
+    Some(Ok(&line_buffer[0..line_buffer.len() - ignore_end]))
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/io/xy.rs b/src/io/xy.rs
index 4531160..2fc5df0 100644
--- a/src/io/xy.rs
+++ b/src/io/xy.rs
@@ -101,7 +101,14 @@ where
         if self.is_done {
             return None;
         }
-        if let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        if let Some(line) = next_line(&mut self.read, &mut self.line_buffer) {
+            let line = match line {
+                Ok(line) => line,
+                Err(e) => {
+                    self.is_done = true;
+                    return Some(Err(XyError::from(e)).index(self.i_line));
+                }
+            };
             self.i_line += 1;
             Some(
                 Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
diff --git a/src/io/xyz.rs b/src/io/xyz.rs
index 5399984..75c32c2 100644
--- a/src/io/xyz.rs
+++ b/src/io/xyz.rs
@@ -106,7 +106,14 @@ where
         if self.is_done {
             return None;
         }
-        if let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        if let Some(line) = next_line(&mut self.read, &mut self.line_buffer) {
+            let line = match line {
+                Ok(line) => line,
+                Err(e) => {
+                    self.is_done = true;
+                    return Some(Err(XyzError::from(e)).index(self.i_line));
+                }
+            };
             self.i_line += 1;
             Some(
                 Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
-- 
2.43.0


From 5b099cda5463a90fc5044ba218a70046e4f90cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:36 +0000
Subject: [PATCH 08/40] fix: load all points of a .psl file

---
 src/io/psl.rs | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/io/psl.rs b/src/io/psl.rs
index e7f7fdd..6437479 100644
--- a/src/io/psl.rs
+++ b/src/io/psl.rs
@@ -72,30 +72,24 @@ where
     }
     #[inline(always)]
     fn fetch_counts(&mut self) -> PslResult<()> {
-        self.n_lines_left = if self.n_lines_left == 0 && self.n_passes_left > 0 {
-            fetch_pass_header_return_n_lines(&mut self.read)?
-        } else {
-            0
-        };
-        self.n_point_left = if self.n_point_left == 0 && self.n_lines_left > 0 {
-            fetch_line_header_return_n_points(&mut self.read)?
-        } else {
-            0
-        };
+        while self.n_point_left <= 0 {
+            if self.n_lines_left > 0 {
+                self.n_lines_left -= 1;
+                self.n_point_left = fetch_line_header_return_n_points(&mut self.read)?;
+            } else if self.n_passes_left > 0 {
+                self.n_passes_left -= 1;
+                self.n_lines_left = fetch_pass_header_return_n_lines(&mut self.read)?;
+            } else {
+                self.n_point_left = 0;
+                break;
+            }
+        }
         Ok(())
     }
     #[inline(always)]
     fn reduce_count(&mut self) {
         if self.n_point_left > 0 {
             self.n_point_left -= 1
-        } else {
-            if self.n_lines_left > 0 {
-                self.n_lines_left -= 1
-            } else {
-                if self.n_passes_left > 0 {
-                    self.n_passes_left -= 1
-                }
-            }
         }
     }
 }
-- 
2.43.0


From 6de604961bbe920188251cb45ef40ee1c9072682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 09/40] fix: stop the .ply mesh and .ptx iterators for good
 after an error

---
 src/io/ply/iterators_internal.rs | 22 ++++++++++++++--------
 src/io/ptx.rs                    |  6 +++++-
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index b1aaa92..5990747 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -71,7 +71,12 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         if let Some(ref mut p_iter) = self.p_iter {
             match p_iter.next() {
-                Some(x) => return Some(x.map(|x| io::types::FaceData::Data(x))),
+                Some(Ok(x)) => return Some(Ok(io::types::FaceData::Data(x))),
+                Some(Err(e)) => {
+                    // neither iterator is left, so this ends here
+                    self.p_iter = None;
+                    return Some(Err(e));
+                }
                 None => {
                     // point iteration done, switch to face iteration
                     // unwrap safe, since in if let Some()
@@ -85,10 +90,8 @@ where
                 }
             }
         }
-        //unwrap safe, either is always constructed
         self.f_iter
-            .as_mut()
-            .unwrap()
+            .as_mut()?
             .next()
             .map(|x| x.map(|x| io::types::FaceData::Face(x)))
     }
@@ -141,7 +144,12 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         if let Some(ref mut p_iter) = self.p_iter {
             match p_iter.next() {
-                Some(x) => return Some(x.map(|x| io::types::FaceData::Data(x))),
+                Some(Ok(x)) => return Some(Ok(io::types::FaceData::Data(x))),
+                Some(Err(e)) => {
+                    // neither iterator is left, so this ends here
+                    self.p_iter = None;
+                    return Some(Err(e));
+                }
                 None => {
                     // point iteration done, switch to face iteration
                     // unwrap safe, since in if let Some()
@@ -151,10 +159,8 @@ where
                 }
             }
         }
-        //unwrap safe, either is always constructed
         self.f_iter
-            .as_mut()
-            .unwrap()
+            .as_mut()?
             .next()
             .map(|x| x.map(|x| io::types::FaceData::Face(x)))
     }
diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index 2183e05..26d2001 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -204,7 +204,11 @@ where
                     Some(
                         Self::fetch_one(line, self.must_transform, &self.transformation)
                             .map(|x| DataReserve::Data(x))
-                            .line(self.i_line, line),
+                            .line(self.i_line, line)
+                            .map_err(|e| {
+                                self.is_done = true;
+                                e
+                            }),
                     )
                 }
                 Err(e) => {
-- 
2.43.0


From 17358072afffc4982c134dd186ba0174bb165bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:02 +0000
Subject: [PATCH 10/40] fix: write all bytes of binary .ply files

---
 src/io/ply/save.rs | 52 +++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/io/ply/save.rs b/src/io/ply/save.rs
index 9b58ae3..e71fe7f 100644
--- a/src/io/ply/save.rs
+++ b/src/io/ply/save.rs
@@ -192,28 +192,28 @@ where
         Precision::P32 => {
             for i in 0..mesh.num_vertices() {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating num_vertices
-                write.write(&(vertex.x() as f32).to_be_bytes())?;
-                write.write(&(vertex.y() as f32).to_be_bytes())?;
-                write.write(&(vertex.z() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.x() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.y() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.z() as f32).to_be_bytes())?;
             }
         }
 
         Precision::P64 => {
             for i in 0..mesh.num_vertices() {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating num_vertices
-                write.write(&(vertex.x()).to_be_bytes())?;
-                write.write(&(vertex.y()).to_be_bytes())?;
-                write.write(&(vertex.z()).to_be_bytes())?;
+                write.write_all(&(vertex.x()).to_be_bytes())?;
+                write.write_all(&(vertex.y()).to_be_bytes())?;
+                write.write_all(&(vertex.z()).to_be_bytes())?;
             }
         }
     }
 
     for i in 0..mesh.num_faces() {
         let face = mesh.face_vertex_ids(FId(i)).unwrap(); // safe since iterating num_faces
-        write.write(&3u8.to_be_bytes())?;
-        write.write(&(face.a.0 as u32).to_be_bytes())?;
-        write.write(&(face.b.0 as u32).to_be_bytes())?;
-        write.write(&(face.c.0 as u32).to_be_bytes())?;
+        write.write_all(&3u8.to_be_bytes())?;
+        write.write_all(&(face.a.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.b.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.c.0 as u32).to_be_bytes())?;
     }
 
     Ok(())
@@ -288,12 +288,12 @@ where
             for i in 0..n_vertices {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating n_vertices
                 let color = &colors[i];
-                write.write(&(vertex.x() as f32).to_be_bytes())?;
-                write.write(&(vertex.y() as f32).to_be_bytes())?;
-                write.write(&(vertex.z() as f32).to_be_bytes())?;
-                write.write(&color.r.to_be_bytes())?;
-                write.write(&color.g.to_be_bytes())?;
-                write.write(&color.b.to_be_bytes())?;
+                write.write_all(&(vertex.x() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.y() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.z() as f32).to_be_bytes())?;
+                write.write_all(&color.r.to_be_bytes())?;
+                write.write_all(&color.g.to_be_bytes())?;
+                write.write_all(&color.b.to_be_bytes())?;
             }
         }
 
@@ -301,22 +301,22 @@ where
             for i in 0..n_vertices {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating n_vertices
                 let color = &colors[i];
-                write.write(&(vertex.x()).to_be_bytes())?;
-                write.write(&(vertex.y()).to_be_bytes())?;
-                write.write(&(vertex.z()).to_be_bytes())?;
-                write.write(&color.r.to_be_bytes())?;
-                write.write(&color.g.to_be_bytes())?;
-                write.write(&color.b.to_be_bytes())?;
+                write.write_all(&(vertex.x()).to_be_bytes())?;
+                write.write_all(&(vertex.y()).to_be_bytes())?;
+                write.write_all(&(vertex.z()).to_be_bytes())?;
+                write.write_all(&color.r.to_be_bytes())?;
+                write.write_all(&color.g.to_be_bytes())?;
+                write.write_all(&color.b.to_be_bytes())?;
             }
         }
     }
 
     for i in 0..n_faces {
         let face = mesh.face_vertex_ids(FId(i)).unwrap(); // safe since iterating n_faces
-        write.write(&3u8.to_be_bytes())?;
-        write.write(&(face.a.0 as u32).to_be_bytes())?;
-        write.write(&(face.b.0 as u32).to_be_bytes())?;
-        write.write(&(face.c.0 as u32).to_be_bytes())?;
+        write.write_all(&3u8.to_be_bytes())?;
+        write.write_all(&(face.a.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.b.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.c.0 as u32).to_be_bytes())?;
     }
 
     Ok(())
-- 
2.43.0


From 4d2a0ef6edcd668f2edf974cf65e8e9da3099f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 11/40] fix: size check of slice_from_bytes_be

---
 src/io/from_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/from_bytes.rs b/src/io/from_bytes.rs
index 9244974..b7384aa 100644
--- a/src/io/from_bytes.rs
+++ b/src/io/from_bytes.rs
@@ -91,7 +91,7 @@ where
 {
     let size = std::mem::size_of::<FB>();
 
-    if size * bytes.len() != target.len() {
+    if bytes.len() != size * target.len() {
         return Err(FromBytesError::SizeMismatch);
     }
 
-- 
2.43.0


From 19e69940f80cb58c9d352dde85acc4da8367ebc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 12/40] fix: report .obj faces with index 0 instead of
 underflowing

---
 src/io/obj.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index 87fb7af..65a0c96 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -320,7 +320,10 @@ fn fetch_face(line: &[u8]) -> ObjResult<[usize; 3]> {
     tmp = words.next().ok_or(ObjError::Face)?;
     let c: usize = from_ascii(until_bytes(tmp, b'/')).ok_or(ObjError::Face)?;
 
-    //@todo could fail if 0 in file
     //obj indexing starts at 1
-    Ok([a - 1, b - 1, c - 1])
+    Ok([
+        a.checked_sub(1).ok_or(ObjError::Face)?,
+        b.checked_sub(1).ok_or(ObjError::Face)?,
+        c.checked_sub(1).ok_or(ObjError::Face)?,
+    ])
 }
-- 
2.43.0


From 2d9357b5715b99f5c489948d56b938cfbfdfa09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:43 +0000
Subject: [PATCH 13/40] fix: report .las point records which are too short

---
 src/io/las/load.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/io/las/load.rs b/src/io/las/load.rs
index da06a24..ed33c1b 100644
--- a/src/io/las/load.rs
+++ b/src/io/las/load.rs
@@ -72,7 +72,12 @@ where
         if let Some(ref header) = self.header {
             self.read.read_exact(&mut self.buffer)?;
 
-            let pd = PointData::from_bytes(self.buffer[0..12].try_into()?);
+            let pd = PointData::from_bytes(
+                self.buffer
+                    .get(0..12)
+                    .ok_or(LasError::BinaryData)?
+                    .try_into()?,
+            );
 
             let x = header.offset_x + (pd.x as f64 * header.scale_factor_x);
             let y = header.offset_y + (pd.y as f64 * header.scale_factor_y);
-- 
2.43.0


From b748250992e15edc076619d75262e92ecf2d91df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 14/40] fix: report .ptx point counts which overflow

---
 src/io/ptx.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index 26d2001..f9711af 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -155,7 +155,10 @@ where
 
         self.must_transform = self.transformation != Matrix4::identity();
 
-        self.n_points_to_fetch = rows * columns;
+        self.n_points_to_fetch = rows
+            .checked_mul(columns)
+            .ok_or(PtxError::Rows)
+            .index(self.i_line)?;
 
         Ok(())
     }
-- 
2.43.0


From a287d539096085e7e52b12a8afed17810fbbf3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:15 +0000
Subject: [PATCH 15/40] fix: limit the space reserved for counts claimed by a
 file

---
 src/io/las/load.rs |  4 ++--
 src/io/off.rs      |  6 +++---
 src/io/ply/load.rs | 14 +++++++-------
 src/io/pts.rs      |  2 +-
 src/io/ptx.rs      |  2 +-
 src/io/stl.rs      | 12 ++++++------
 src/io/utils.rs    |  9 +++++++++
 7 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/io/las/load.rs b/src/io/las/load.rs
index ed33c1b..8d42abd 100644
--- a/src/io/las/load.rs
+++ b/src/io/las/load.rs
@@ -33,7 +33,7 @@ use std::{
     marker::PhantomData,
 };
 
-use super::super::{from_bytes::*, types::*};
+use super::super::{from_bytes::*, types::*, utils::*};
 
 //------------------------------------------------------------------------------
 
@@ -154,7 +154,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(to_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/off.rs b/src/io/off.rs
index 26ccefd..dc47651 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -330,8 +330,8 @@ where
                     .simple()?;
             }
             FaceDataReserve::ReserveDataFaces(n_vertices, n_faces) => {
-                mesh.reserve_vertices(n_vertices);
-                mesh.reserve_faces(n_faces);
+                mesh.reserve_vertices(to_reserve(n_vertices));
+                mesh.reserve_faces(to_reserve(n_faces));
             }
             FaceDataReserve::Data(x) => {
                 mesh.add_vertex(x);
@@ -353,7 +353,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(to_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/ply/load.rs b/src/io/ply/load.rs
index 82ae4b6..20c7c43 100644
--- a/src/io/ply/load.rs
+++ b/src/io/ply/load.rs
@@ -26,7 +26,7 @@ use crate::*;
 
 use std::io::{BufRead, Read};
 
-use super::super::{byte_reader::*, types::*};
+use super::super::{byte_reader::*, types::*, utils::*};
 
 use super::{header::*, iterators::*, iterators_internal::*, types::*};
 
@@ -49,8 +49,8 @@ where
 
     match load_header(&mut read, &mut line_buffer, &mut i_line)? {
         Header::Full(header) => {
-            mesh.reserve_vertices(header.vertex.count);
-            mesh.reserve_faces(header.face.count);
+            mesh.reserve_vertices(to_reserve(header.vertex.count));
+            mesh.reserve_faces(to_reserve(header.face.count));
 
             match header.format {
                 Format::Ascii => load_mesh_ascii(&mut read, mesh, header, &mut i_line),
@@ -65,7 +65,7 @@ where
             Ok(MeshOrPoints::Mesh)
         }
         Header::Partial(header) => {
-            ip.reserve(header.vertex.count);
+            ip.reserve(to_reserve(header.vertex.count));
 
             match header.format {
                 Format::Ascii => load_points_ascii(&mut read, ip, header, i_line),
@@ -97,8 +97,8 @@ where
                 mesh.add_vertex(p);
             }
             FaceDataReserve::ReserveDataFaces(n_d, n_f) => {
-                mesh.reserve_vertices(n_d);
-                mesh.reserve_faces(n_f);
+                mesh.reserve_vertices(to_reserve(n_d));
+                mesh.reserve_faces(to_reserve(n_f));
             }
             FaceDataReserve::Face([a, b, c]) => {
                 mesh.try_add_connection(VId(a), VId(b), VId(c))
@@ -124,7 +124,7 @@ where
 
     for rp in iterator {
         match rp? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(to_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/pts.rs b/src/io/pts.rs
index bcc0bc8..bff1389 100644
--- a/src/io/pts.rs
+++ b/src/io/pts.rs
@@ -192,7 +192,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(to_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index f9711af..2b8f85d 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -246,7 +246,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(to_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/stl.rs b/src/io/stl.rs
index b4f4213..0ef3f4e 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -350,8 +350,8 @@ where
     for fr in iterator {
         match fr? {
             DataReserve::Reserve(n) => {
-                mesh.reserve_vertices(3 * n);
-                mesh.reserve_faces(n);
+                mesh.reserve_vertices(to_reserve(3 * n));
+                mesh.reserve_faces(to_reserve(n));
             }
             DataReserve::Data(face) => {
                 mesh.add_face(face.a, face.b, face.c);
@@ -385,8 +385,8 @@ where
         match fr? {
             DataReserve::Reserve(n) => {
                 //Can't reserve vertices since not sure how many are unique
-                mesh.reserve_faces(n);
-                face_normals.reserve(n);
+                mesh.reserve_faces(to_reserve(n));
+                face_normals.reserve(to_reserve(n));
             }
             DataReserve::Data(face) => {
                 let [a, b, c, n] = [face.a, face.b, face.c, face.n];
@@ -443,8 +443,8 @@ where
     for fr in iterator {
         match fr? {
             DataReserve::Reserve(n) => {
-                ip.reserve(3 * n);
-                face_normals.reserve(n);
+                ip.reserve(to_reserve(3 * n));
+                face_normals.reserve(to_reserve(n));
             }
             DataReserve::Data(face) => {
                 ip.push(face.a);
diff --git a/src/io/utils.rs b/src/io/utils.rs
index 7300d2e..a63c4b3 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -30,6 +30,15 @@ use std::{
 
 //------------------------------------------------------------------------------
 
+/// Number of elements to reserve space for, given the number a file claims to contain
+/// Limited, since the claim can be arbitrarily wrong
+#[inline(always)]
+pub fn to_reserve(n_claimed: usize) -> usize {
+    n_claimed.min(1_000_000)
+}
+
+//------------------------------------------------------------------------------
+
 /// Skip number of bytes
 #[inline(always)]
 pub fn skip_bytes<R>(read: &mut R, n_bytes: usize) -> std::io::Result<()>
-- 
2.43.0


From 464f118fbca64befeb13b2649bd644e0efd3e474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:37 +0000
Subject: [PATCH 16/40] fix: save degenerate faces as .stl without panicking

---
 src/io/stl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/stl.rs b/src/io/stl.rs
index 0ef3f4e..6fbce34 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -63,7 +63,7 @@ where
 
     for i in 0..mesh.num_faces() {
         let [v1, v2, v3] = mesh.face_vertices(FId(i)).unwrap(); // safe since iterating num_faces
-        let n = mesh.face_normal(FId(i)).unwrap(); // safe since iterating num_faces
+        let n = mesh.face_normal(FId(i)).unwrap_or(Norm3D::norm_z()); // degenerate faces have no normal
         let buffer = "facet normal ".to_string()
             + &str_exp(&n)
             + "\n"
-- 
2.43.0


From 3cd0811edccace68e28f948c11a33cee680cbd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 17/40] fix: stl ascii: report read errors and truncated facets
 instead of ending silently

---
 src/io/stl.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/io/stl.rs b/src/io/stl.rs
index 6fbce34..b7a9d76 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -308,10 +308,8 @@ where
         }
 
         match read_stl_facet(&mut self.read, &mut self.line_buffer, &mut self.i_line) {
-            Ok([a, b, c, n]) => return Some(Ok(DataReserve::Data(StlFace { a, b, c, n }))),
-            Err(WithLineInfo::None(StlError::LoadFileEndReached))
-            | Err(WithLineInfo::Index(_, StlError::LoadFileEndReached))
-            | Err(WithLineInfo::Line(_, _, StlError::LoadFileEndReached)) => {
+            Ok(Some([a, b, c, n])) => return Some(Ok(DataReserve::Data(StlFace { a, b, c, n }))),
+            Ok(None) => {
                 self.is_done = true;
                 return None;
             }
@@ -514,22 +512,26 @@ where
 
 //------------------------------------------------------------------------------
 
+/// Reads the next facet, None if there are no more facets
 fn read_stl_facet<P, R>(
     read: &mut R,
     line_buffer: &mut Vec<u8>,
     i_line: &mut usize,
-) -> StlIOResult<[P; 4]>
+) -> StlIOResult<Option<[P; 4]>>
 where
     P: IsBuildable3D,
     R: BufRead,
 {
     let mut line: &[u8];
 
-    line = trim_start(fetch_line(read, line_buffer).index(*i_line)?);
+    line = match next_line(read, line_buffer) {
+        Some(fetched) => trim_start(fetched.index(*i_line)?),
+        None => return Ok(None),
+    };
     *i_line += 1;
 
     if line.starts_with(b"endsolid") {
-        return Err(StlError::LoadFileEndReached).line(*i_line, line);
+        return Ok(None);
     }
 
     if !line.starts_with(b"facet") {
@@ -580,7 +582,7 @@ where
         return Err(StlError::EndFacet).line(*i_line, line);
     }
 
-    Ok([a, b, c, n])
+    Ok(Some([a, b, c, n]))
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 161699526ac6e73fb0a05c1ab91d0df8269f957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 18/40] fix: hash 0.0 and -0.0 alike, since they compare equal

---
 src/utils.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index 22db621..ef48621 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -73,6 +73,8 @@ pub fn hash_f64<H>(x: f64, state: &mut H)
 where
     H: Hasher,
 {
+    // 0.0 and -0.0 compare equal, hence must not be hashed by their different bits
+    let x = if x == 0.0 { 0.0 } else { x };
     x.to_bits().hash(state);
 }
 
-- 
2.43.0


From cf842ee65c56c83a0e3aec9d305d2c0913ab796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 19/40] fix: OcTree keeps positions on the borders of its cells

---
 src/oc_tree.rs | 55 +++++++++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/src/oc_tree.rs b/src/oc_tree.rs
index 5ce694e..d19bc3f 100644
--- a/src/oc_tree.rs
+++ b/src/oc_tree.rs
@@ -213,34 +213,32 @@ where
         let bbnnp = Self::calc_sub_min_max(Direction::NNP, bb)?;
         let bbnnn = Self::calc_sub_min_max(Direction::NNN, bb)?;
 
+        let middle = center_3d(&bb.min_p(), &bb.max_p());
         for p in pc {
-            if bbppp.contains(&p) {
-                pcppp.push(p);
-            } else if bbppn.contains(&p) {
-                pcppn.push(p);
-            } else if bbpnp.contains(&p) {
-                pcpnp.push(p);
-            } else if bbpnn.contains(&p) {
-                pcpnn.push(p);
-            } else if bbnpp.contains(&p) {
-                pcnpp.push(p);
-            } else if bbnpn.contains(&p) {
-                pcnpn.push(p);
-            } else if bbnnp.contains(&p) {
-                pcnnp.push(p);
-            } else if bbnnn.contains(&p) {
-                pcnnn.push(p);
+            match (
+                p.x() >= middle.x(),
+                p.y() >= middle.y(),
+                p.z() >= middle.z(),
+            ) {
+                (true, true, true) => pcppp.push(p),
+                (true, true, false) => pcppn.push(p),
+                (true, false, true) => pcpnp.push(p),
+                (true, false, false) => pcpnn.push(p),
+                (false, true, true) => pcnpp.push(p),
+                (false, true, false) => pcnpn.push(p),
+                (false, false, true) => pcnnp.push(p),
+                (false, false, false) => pcnnn.push(p),
             }
         }
 
-        let ppp = Self::build_subnode(pcppp, &bbppp);
-        let ppn = Self::build_subnode(pcppn, &bbppn);
-        let pnp = Self::build_subnode(pcpnp, &bbpnp);
-        let pnn = Self::build_subnode(pcpnn, &bbpnn);
-        let npp = Self::build_subnode(pcnpp, &bbnpp);
-        let npn = Self::build_subnode(pcnpn, &bbnpn);
-        let nnp = Self::build_subnode(pcnnp, &bbnnp);
-        let nnn = Self::build_subnode(pcnnn, &bbnnn);
+        let ppp = Self::build_subnode(pcppp, &bbppp)?;
+        let ppn = Self::build_subnode(pcppn, &bbppn)?;
+        let pnp = Self::build_subnode(pcpnp, &bbpnp)?;
+        let pnn = Self::build_subnode(pcpnn, &bbpnn)?;
+        let npp = Self::build_subnode(pcnpp, &bbnpp)?;
+        let npn = Self::build_subnode(pcnpn, &bbnpn)?;
+        let nnp = Self::build_subnode(pcnnp, &bbnnp)?;
+        let nnn = Self::build_subnode(pcnnn, &bbnnn)?;
 
         let result: Internal<P> = Internal {
             ppp,
@@ -294,13 +292,10 @@ where
         }
     }
     /// Creates a child node
-    fn build_subnode(pc: Vec<P>, bb: &BoundingBox3D) -> Option<Box<OcNode<P>>> {
+    fn build_subnode(pc: Vec<P>, bb: &BoundingBox3D) -> Result<Option<Box<OcNode<P>>>> {
         match pc.len() {
-            0 => None,
-            _ => match OcNode::new(bb, pc) {
-                Err(_) => None,
-                Ok(x) => Some(Box::new(x)),
-            },
+            0 => Ok(None),
+            _ => Ok(Some(Box::new(OcNode::new(bb, pc)?))),
         }
     }
 }
-- 
2.43.0


From c6a72a5e32d41f5a2093219384def7116de7ea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:08 +0000
Subject: [PATCH 20/40] fix: OcTree::build leaves the tree unchanged when it
 fails

---
 src/oc_tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oc_tree.rs b/src/oc_tree.rs
index d19bc3f..5a4c41a 100644
--- a/src/oc_tree.rs
+++ b/src/oc_tree.rs
@@ -54,7 +54,7 @@ where
     }
 
     fn build(&mut self, pc: PointCloud3D<P>) -> Result<()> {
-        self.bb = pc
+        let bb = pc
             .bounding_box_maybe()
             .ok_or(ErrorKind::BoundingBoxMissing)?;
         let mut unique_data = Vec::new();
@@ -64,7 +64,8 @@ where
         }
 
         unique_data.extend(set.into_iter());
-        self.root = Some(OcNode::new(&self.bb, unique_data)?);
+        self.root = Some(OcNode::new(&bb, unique_data)?);
+        self.bb = bb;
 
         Ok(())
     }
-- 
2.43.0


From 19f30beca7e9b70b4a60ec34136e31eef7ca3a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 21/40] fix: KdTree::knearest keeps its candidates sorted

---
 src/kd_tree.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/kd_tree.rs b/src/kd_tree.rs
index 967d28d..bfd5868 100644
--- a/src/kd_tree.rs
+++ b/src/kd_tree.rs
@@ -224,6 +224,7 @@ where
         if pc.len() < n || sqr_dist_3d(search, &self.val) < sqr_dist_3d(search, &pc[&pc.len() - 1])
         {
             pc.push(self.val.clone());
+            Self::sort_and_limit(pc, search, n);
         }
 
         let comp = dimension_compare(search, &self.val, self.dimension);
@@ -407,18 +408,11 @@ where
         PSearch: Is3D,
         PFind: Is3D + Clone,
     {
-        if pc.len() > max_size {
-            pc.sort_by(|a, b| {
-                sqr_dist_3d(search, a)
-                    .partial_cmp(&sqr_dist_3d(search, b))
-                    .unwrap_or(Ordering::Equal)
-            });
-            let mut result: Vec<PFind>;
-            result = Vec::new();
-            for i in pc.iter().take(max_size) {
-                result.push(i.clone());
-            }
-            *pc = result;
-        }
+        pc.sort_by(|a, b| {
+            sqr_dist_3d(search, a)
+                .partial_cmp(&sqr_dist_3d(search, b))
+                .unwrap_or(Ordering::Equal)
+        });
+        pc.truncate(max_size);
     }
 }
-- 
2.43.0


From bc6774c2ce2799beaee9a18c6d4603f26a5c979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 22/40] fix: half edge twin is the opposite edge, not the one
 after it

---
 src/half_edge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/half_edge.rs b/src/half_edge.rs
index 8d7dafb..45995e2 100644
--- a/src/half_edge.rs
+++ b/src/half_edge.rs
@@ -112,7 +112,7 @@ where
             for originating_id in cache.iter() {
                 let _ = result.next(*originating_id).map(|candidate_id| {
                     if result.tails.get(candidate_id.0) == result.tails.get(i) {
-                        result.twins[i] = Some(candidate_id)
+                        result.twins[i] = Some(*originating_id)
                     }
                 });
             }
-- 
2.43.0


From 309464f15760afccdc69f2f557039751e77be391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:56 +0000
Subject: [PATCH 23/40] fix: half edge knows the vertices that aren't part of
 any face

---
 src/half_edge.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/half_edge.rs b/src/half_edge.rs
index 45995e2..4ebdd60 100644
--- a/src/half_edge.rs
+++ b/src/half_edge.rs
@@ -58,6 +58,12 @@ where
         let mut vertices_start_edges = Vec::with_capacity(n_vertices);
         let estimated_edges_per_vertex = 6; // true for all vertices within regular meshes, possibly best estimate
 
+        // also covers vertices that aren't part of any face
+        vertices_start_edges.resize(
+            n_vertices,
+            IC::with_capacity_and_support_for(estimated_edges_per_vertex, n_edges),
+        );
+
         for i in 0..n_faces {
             match mesh.face_vertex_ids(FId(i)) {
                 None => {}
-- 
2.43.0


From 295699f1cd14b881bab9eea6627fc016983749de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:27 +0000
Subject: [PATCH 24/40] fix: refuse face and point ids whose index overflows
 instead of wrapping around

---
 src/mesh_3d.rs            | 8 ++++----
 src/point_cloud_3d_f32.rs | 4 ++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mesh_3d.rs b/src/mesh_3d.rs
index 77565a0..b782ea3 100644
--- a/src/mesh_3d.rs
+++ b/src/mesh_3d.rs
@@ -56,14 +56,14 @@ where
     }
 
     fn face_vertex_ids(&self, faceid: FId) -> Option<Face3> {
+        if faceid.0 >= self.num_faces() {
+            return None;
+        }
+
         let id1 = 3 * faceid.0 + 0;
         let id2 = 3 * faceid.0 + 1;
         let id3 = 3 * faceid.0 + 2;
 
-        if id3 >= self.topology.len() {
-            return None;
-        }
-
         Some(Face3::new(
             VId(self.topology.get(id1)),
             VId(self.topology.get(id2)),
diff --git a/src/point_cloud_3d_f32.rs b/src/point_cloud_3d_f32.rs
index fab9bcc..b1ea7fb 100644
--- a/src/point_cloud_3d_f32.rs
+++ b/src/point_cloud_3d_f32.rs
@@ -95,6 +95,10 @@ where
     }
 
     fn get_d(&self, index: usize) -> Option<P> {
+        if index >= self.data.len() / 3 {
+            return None;
+        }
+
         Some(P::new(
             *self.data.get(3 * index + 0)? as f64,
             *self.data.get(3 * index + 1)? as f64,
-- 
2.43.0


From 442f3599e7a2e40e40fe34c0470e798e5e41c066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:31 +0000
Subject: [PATCH 25/40] fix: keep negative zero out of NonNegative

---
 src/non_negative.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/non_negative.rs b/src/non_negative.rs
index 0935239..2fa1ee5 100644
--- a/src/non_negative.rs
+++ b/src/non_negative.rs
@@ -42,7 +42,8 @@ impl NonNegative {
     /// Creates a new NonNegative if input >= 0, fails otherwise
     pub fn new(val: f64) -> Option<NonNegative> {
         if val >= 0.0 {
-            return Some(NonNegative { val });
+            // abs turns -0.0 into 0.0, since e.g. x / -0.0 would be < 0.0
+            return Some(NonNegative { val: val.abs() });
         }
         None
     }
-- 
2.43.0


From 0356f447cca7354349df9e1a605f7396a793c8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:55 +0000
Subject: [PATCH 26/40] fix: refuse NaN corners of bounding boxes

---
 src/bounding_box_2d.rs | 3 ++-
 src/bounding_box_3d.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bounding_box_2d.rs b/src/bounding_box_2d.rs
index cc40768..0169cf2 100644
--- a/src/bounding_box_2d.rs
+++ b/src/bounding_box_2d.rs
@@ -42,7 +42,8 @@ impl BoundingBox2D {
     {
         if min.x() == max.x() || min.y() == max.y() {
             Err(ErrorKind::MinMaxEqual)
-        } else if min.x() > max.x() || min.y() > max.y() {
+        } else if !(min.x() < max.x() && min.y() < max.y()) {
+            // also refuses NaN, which compares false to anything
             Err(ErrorKind::MinMaxSwapped)
         } else {
             Ok(BoundingBox2D {
diff --git a/src/bounding_box_3d.rs b/src/bounding_box_3d.rs
index 7b2cd49..465003b 100644
--- a/src/bounding_box_3d.rs
+++ b/src/bounding_box_3d.rs
@@ -42,7 +42,8 @@ impl BoundingBox3D {
     {
         if min.x() == max.x() || min.y() == max.y() || min.z() == max.z() {
             Err(ErrorKind::MinMaxEqual)
-        } else if min.x() > max.x() || min.y() > max.y() || min.z() > max.z() {
+        } else if !(min.x() < max.x() && min.y() < max.y() && min.z() < max.z()) {
+            // also refuses NaN, which compares false to anything
             Err(ErrorKind::MinMaxSwapped)
         } else {
             Ok(BoundingBox3D {
-- 
2.43.0


From 6b4743adb4159389cb38dddc91495697b266c9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:43 +0000
Subject: [PATCH 27/40] fix: loading .off files must report missing vertices
 and faces and stop after the announced ones

---
 src/io/off.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/io/off.rs b/src/io/off.rs
index dc47651..d5819cc 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -140,7 +140,11 @@ where
 
         self.is_done = true;
 
-        None
+        // the file ended before delivering everything it announced
+        match self.n_vertices {
+            Some(n) if self.n_added < n => Some(Err(OffError::VertexCount).index(self.i_line)),
+            _ => None,
+        }
     }
 }
 
@@ -166,6 +170,7 @@ where
     off_seen: bool,
     counts: Option<[usize; 2]>,
     n_vertices_added: usize,
+    n_faces_added: usize,
     phantom_p: PhantomData<P>,
 }
 
@@ -183,6 +188,7 @@ where
             off_seen: false,
             counts: None,
             n_vertices_added: 0,
+            n_faces_added: 0,
             phantom_p: PhantomData,
         }
     }
@@ -282,7 +288,9 @@ where
                     fetch_vertex(line)
                         .map(|x| FaceDataReserve::Data(x))
                         .line(self.i_line, line)
-                } else {
+                } else if self.n_faces_added < self.counts.unwrap()[1] {
+                    self.n_faces_added += 1;
+
                     Self::fetch_face(line)
                         .map(|x| FaceDataReserve::Face(x))
                         .line(self.i_line, line)
@@ -290,6 +298,9 @@ where
                             self.is_done = true;
                             e
                         })
+                } else {
+                    self.is_done = true;
+                    return None;
                 })
                 .map_err(|e| {
                     self.is_done = true;
@@ -300,7 +311,16 @@ where
 
         self.is_done = true;
 
-        None
+        // the file ended before delivering everything it announced
+        match self.counts {
+            Some([n, _]) if self.n_vertices_added < n => {
+                Some(Err(OffError::VertexCount).index(self.i_line))
+            }
+            Some([_, n]) if self.n_faces_added < n => {
+                Some(Err(OffError::FaceCount).index(self.i_line))
+            }
+            _ => None,
+        }
     }
 }
 
-- 
2.43.0


From 4ebb4a07748e636c25f3b4d49e8f50303baa55f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:16 +0000
Subject: [PATCH 28/40] fix: report .pts files ending before the announced
 number of points

---
 src/io/pts.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/io/pts.rs b/src/io/pts.rs
index bff1389..aee177d 100644
--- a/src/io/pts.rs
+++ b/src/io/pts.rs
@@ -170,7 +170,13 @@ where
 
         self.is_done = true;
 
-        None
+        // the file ended before delivering everything its last block announced
+        match self.n_vertices {
+            Some(n) if self.n_vertices_added < n => {
+                Some(Err(PtsError::VertexCount).index(self.i_line))
+            }
+            _ => None,
+        }
     }
 }
 
-- 
2.43.0


From b27d558a78e2a31f3176746da751990002dbd746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:19 +0000
Subject: [PATCH 29/40] fix: report ascii .ply files ending before the
 announced vertices and faces

---
 src/io/ply/iterators_internal.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index 5990747..b624ded 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -384,7 +384,6 @@ where
             return None;
         }
         if self.current < self.header.vertex.count {
-            self.current += 1;
             while let Some(line) = next_line(&mut self.read, &mut self.line_buffer) {
                 let line = match line {
                     Ok(line) => line,
@@ -394,6 +393,7 @@ where
                     }
                 };
                 self.i_line += 1;
+                self.current += 1;
                 return Some(
                     Self::fetch_one(&self.header, line)
                         .line(self.i_line, line)
@@ -463,7 +463,6 @@ where
             return None;
         }
         if self.current < self.header.face.count {
-            self.current += 1;
             while let Some(line) = next_line(&mut self.read, &mut self.line_buffer) {
                 let line = match line {
                     Ok(line) => line,
@@ -473,6 +472,7 @@ where
                     }
                 };
                 self.i_line += 1;
+                self.current += 1;
                 return Some(
                     collect_index_line(&line)
                         .ok_or(PlyError::FaceStructure)
@@ -487,7 +487,11 @@ where
 
         self.is_done = true;
 
-        None
+        if self.current != self.header.face.count {
+            Some(Err(PlyError::FaceStructure).index(self.i_line))
+        } else {
+            None
+        }
     }
 }
 
-- 
2.43.0


From 3165184816766d030bc6872b101b63b459c69ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 30/40] fix: recognise G90 and G91 without further text

---
 src/io/gcode.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/io/gcode.rs b/src/io/gcode.rs
index 3bc7507..0c766ad 100644
--- a/src/io/gcode.rs
+++ b/src/io/gcode.rs
@@ -95,7 +95,8 @@ where
             };
             self.i_line += 1;
 
-            if line.len() >= 4 && line[0] == b'G' {
+            // at least G90 / G91, which come without parameters
+            if line.len() >= 3 && line[0] == b'G' {
                 if line[2] == b' ' && (line[1] == b'1' || line[1] == b'2' || line[1] == b'3') {
                     // Move according to absolute/relative
                     let mut any_changed = false;
@@ -137,7 +138,7 @@ where
                             }
                         }
                     }
-                } else if line[1] == b'9' && line[3] == b' ' {
+                } else if line[1] == b'9' && (line.len() == 3 || line[3] == b' ') {
                     // G9x
                     if line[2] == b'0' {
                         // G90
@@ -145,7 +146,7 @@ where
                     } else if line[2] == b'1' {
                         // G91
                         self.ra = RelativeAbsolute::Relative;
-                    } else if line[2] == b'2' {
+                    } else if line[2] == b'2' && line.len() > 4 {
                         // G92
                         // Move according absolute
                         let mut any_changed = false;
-- 
2.43.0


From 18a7a874eafaaaf2aec411d167bc6092e9486b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:49 +0000
Subject: [PATCH 31/40] fix: skip the properties before the vertex indices of
 ascii .ply faces

---
 src/io/ply/iterators_internal.rs | 2 +-
 src/io/ply/utils.rs              | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index b624ded..de3a4eb 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -474,7 +474,7 @@ where
                 self.i_line += 1;
                 self.current += 1;
                 return Some(
-                    collect_index_line(&line)
+                    collect_index_line(&line, self.header.face.format.before.words)
                         .ok_or(PlyError::FaceStructure)
                         .line(self.i_line, line)
                         .map_err(|e| {
diff --git a/src/io/ply/utils.rs b/src/io/ply/utils.rs
index dc00574..e381534 100644
--- a/src/io/ply/utils.rs
+++ b/src/io/ply/utils.rs
@@ -34,8 +34,10 @@ use std::io::Read;
 //------------------------------------------------------------------------------
 
 #[inline(always)]
-pub fn collect_index_line(line: &[u8]) -> Option<[usize; 3]> {
+pub fn collect_index_line(line: &[u8], n_words_before: usize) -> Option<[usize; 3]> {
     let mut words = to_words_skip_empty(line);
+    skip_n(&mut words, n_words_before);
+
     if words.next()? != b"3" {
         return None;
     }
-- 
2.43.0


From 429c0ec9fef2104282f790fef6edbd394815d529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:02 +0000
Subject: [PATCH 32/40] fix: refuse binary .ply faces with further list
 properties

---
 src/io/ply/header.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index 79b543c..013b1ce 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -191,6 +191,9 @@ where
 
                             opt_face_count_type = Some(t_count);
                             opt_face_index_type = Some(t_index);
+                        } else if !matches!(opt_format, Some(Format::Ascii)) {
+                            // the size of further lists isn't known upfront, so their bytes can't be skipped
+                            return Err(PlyError::InvalidProperty).line(*i_line, line);
                         }
                     } else {
                         let mut words = to_words_skip_empty(line);
-- 
2.43.0


From f4611b0571b88301100f7a810ff4855f1536e5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:42 +0000
Subject: [PATCH 33/40] fix: assign y z x and z x y ordered .ply coordinates to
 the right axes

---
 src/io/ply/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/ply/utils.rs b/src/io/ply/utils.rs
index e381534..a7d07c8 100644
--- a/src/io/ply/utils.rs
+++ b/src/io/ply/utils.rs
@@ -92,8 +92,8 @@ where
         VertexOrder::Xyz => P::new(fst, snd, third),
         VertexOrder::Xzy => P::new(fst, third, snd),
         VertexOrder::Yxz => P::new(snd, fst, third),
-        VertexOrder::Yzx => P::new(snd, third, fst),
-        VertexOrder::Zxy => P::new(third, fst, snd),
+        VertexOrder::Yzx => P::new(third, fst, snd),
+        VertexOrder::Zxy => P::new(snd, third, fst),
         VertexOrder::Zyx => P::new(third, snd, fst),
     }
 }
-- 
2.43.0


From 548b14f05d8179a58055fb02cb292c3f33214ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:04 +0000
Subject: [PATCH 34/40] fix: KdTree::knearest: elements already within the
 result vector were treated as candidates and could suppress nearest
 neighbours or be dropped

---
 src/kd_tree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kd_tree.rs b/src/kd_tree.rs
index bfd5868..b4a6254 100644
--- a/src/kd_tree.rs
+++ b/src/kd_tree.rs
@@ -94,7 +94,10 @@ where
             return;
         }
         if let Some(ref node) = self.root {
-            node.knearest(search, n, result);
+            // elements already within the result must not compete with those of the tree
+            let mut nearest = Vec::new();
+            node.knearest(search, n, &mut nearest);
+            result.append(&mut nearest);
         }
     }
 
-- 
2.43.0


From 1e007934a5ea85cae71c8acbf313fc73ee1daba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:01 +0000
Subject: [PATCH 35/40] fix: involut_circle ignored its start angle

---
 src/factory_2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factory_2d.rs b/src/factory_2d.rs
index 5027442..ef04491 100644
--- a/src/factory_2d.rs
+++ b/src/factory_2d.rs
@@ -59,7 +59,7 @@ where
     let p_dist = (end.0 - start.0).abs() / (n_points - 1) as f64;
 
     for i in 0..n_points {
-        let current = (i as f64) * p_dist;
+        let current = start.0 + (i as f64) * p_dist;
         pc.push(P::new(
             center.x() + d / 2.0 * (current.cos() + current * current.sin()),
             center.y() + d / 2.0 * (current.sin() - current * current.cos()),
-- 
2.43.0


From 8643ae363470f5e0bfcf99c36d43899c2fd8353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:04 +0000
Subject: [PATCH 36/40] fix: shapes and interpolations of zero or one point
 underflowed or produced NaN

---
 src/factory_2d.rs     | 6 +++---
 src/interpolate_2d.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/factory_2d.rs b/src/factory_2d.rs
index ef04491..f4ff083 100644
--- a/src/factory_2d.rs
+++ b/src/factory_2d.rs
@@ -56,7 +56,7 @@ where
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
     let d = *diameter;
-    let p_dist = (end.0 - start.0).abs() / (n_points - 1) as f64;
+    let p_dist = (end.0 - start.0).abs() / (n_points.max(2) - 1) as f64;
 
     for i in 0..n_points {
         let current = start.0 + (i as f64) * p_dist;
@@ -81,7 +81,7 @@ where
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
     let d = *diameter;
-    let p_dist = (end.0 - start.0).abs() / (n_points - 1) as f64;
+    let p_dist = (end.0 - start.0).abs() / (n_points.max(2) - 1) as f64;
 
     for i in 0..n_points {
         let radians = start.0 + (i as f64) * p_dist;
@@ -99,7 +99,7 @@ where
     P: IsBuildable2D,
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = PI / (n_points - 1) as f64;
+    let p_dist = PI / (n_points.max(2) - 1) as f64;
     let a = *ap;
     let b = *bp;
     let angle: f64 = 0.0;
diff --git a/src/interpolate_2d.rs b/src/interpolate_2d.rs
index b0ff22f..08c0ddc 100644
--- a/src/interpolate_2d.rs
+++ b/src/interpolate_2d.rs
@@ -98,7 +98,7 @@ where
     }
 
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = base_points.length() / (n_points - 1) as f64;
+    let p_dist = base_points.length() / (n_points.max(2) - 1) as f64;
 
     for i in 0..n_points {
         let mut traveled: f64 = 0.0;
@@ -140,7 +140,7 @@ where
     }
 
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = base_points.length() / (n_points - 1) as f64;
+    let p_dist = base_points.length() / (n_points.max(2) - 1) as f64;
 
     for i in 0..n_points {
         let mut traveled: f64 = 0.0;
-- 
2.43.0


From 67c1613b2c2bafb3f6300ae2432400ee5b724a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:06 +0000
Subject: [PATCH 37/40] fix: interpolation lost its last point to rounding and
 produced NaN on repeated base points

---
 src/interpolate_2d.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/interpolate_2d.rs b/src/interpolate_2d.rs
index 08c0ddc..effd913 100644
--- a/src/interpolate_2d.rs
+++ b/src/interpolate_2d.rs
@@ -111,9 +111,13 @@ where
             traveled +=
                 ((p_now.x() - p_prev.x()).powi(2) + (p_now.y() - p_prev.y()).powi(2)).sqrt();
 
-            if traveled >= p_dist * (i as f64) {
-                let proportion =
-                    ((i as f64) * p_dist - traveled_before) / (traveled - traveled_before);
+            if traveled >= p_dist * (i as f64) || j + 1 == base_points.len() {
+                let segment = traveled - traveled_before;
+                let proportion = if segment > 0.0 {
+                    ((i as f64) * p_dist - traveled_before) / segment
+                } else {
+                    0.0
+                };
                 let proportion2 = (1.0 - (proportion * PI).cos()) / 2.0;
                 pc.push(P::new(
                     p_prev.x() + proportion * (p_now.x() - p_prev.x()),
@@ -154,9 +158,13 @@ where
             traveled +=
                 ((p_now.x() - p_prev.x()).powi(2) + (p_now.y() - p_prev.y()).powi(2)).sqrt();
 
-            if traveled >= p_dist * (i as f64) {
-                let proportion =
-                    ((i as f64) * p_dist - traveled_before) / (traveled - traveled_before);
+            if traveled >= p_dist * (i as f64) || j + 1 == base_points.len() {
+                let segment = traveled - traveled_before;
+                let proportion = if segment > 0.0 {
+                    ((i as f64) * p_dist - traveled_before) / segment
+                } else {
+                    0.0
+                };
                 pc.push(P::new(
                     p_prev.x() + proportion * (p_now.x() - p_prev.x()),
                     p_prev.y() + proportion * (p_now.y() - p_prev.y()),
-- 
2.43.0


From 93a28efaa296734e2ba1ac32faa574460bd65931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:09 +0000
Subject: [PATCH 38/40] fix: bezier coefficients overflowed for more than 20
 base points

---
 src/interpolate_2d.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/interpolate_2d.rs b/src/interpolate_2d.rs
index effd913..6947cf7 100644
--- a/src/interpolate_2d.rs
+++ b/src/interpolate_2d.rs
@@ -28,21 +28,17 @@ use crate::*;
 
 //------------------------------------------------------------------------------
 
-fn factorial(number: usize) -> usize {
-    let mut result = 1;
+fn binominal_coefficient(n: usize, k: usize) -> f64 {
+    let mut result = 1.0;
 
-    for i in 1..number + 1 {
-        result *= i;
+    for i in 1..k + 1 {
+        result = result * (n - k + i) as f64 / i as f64;
     }
     result
 }
 
-fn binominal_coefficient(n: usize, k: usize) -> usize {
-    factorial(n) / (factorial(k) * factorial(n - k))
-}
-
 fn bernstein_polynomial(n: usize, i: usize, t: f64) -> f64 {
-    (binominal_coefficient(n, i) as f64) * t.powi(i as i32) * (1.0 - t).powi((n - i) as i32)
+    binominal_coefficient(n, i) * t.powi(i as i32) * (1.0 - t).powi((n - i) as i32)
 }
 
 fn control_polygon<P>(path: &PointCloud2D<P>, n_points: usize, t: f64) -> P
-- 
2.43.0


From c6bc6e97d380e3910f9105a260600d03c185fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:12 +0000
Subject: [PATCH 39/40] fix: clouds could not be compressed to 64 bit and wider
 units

---
 src/compressed_point_cloud_3d.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/compressed_point_cloud_3d.rs b/src/compressed_point_cloud_3d.rs
index 16af708..fc688fc 100644
--- a/src/compressed_point_cloud_3d.rs
+++ b/src/compressed_point_cloud_3d.rs
@@ -72,9 +72,9 @@ where
             let disty = p.y() - bb.min_p().y;
             let distz = p.z() - bb.min_p().z;
 
-            let unitsx = T::from(distx / unitsizex).ok_or(ErrorKind::NumberConversionError)?;
-            let unitsy = T::from(disty / unitsizey).ok_or(ErrorKind::NumberConversionError)?;
-            let unitsz = T::from(distz / unitsizez).ok_or(ErrorKind::NumberConversionError)?;
+            let unitsx = to_units::<T>(distx / unitsizex, maxval)?;
+            let unitsy = to_units::<T>(disty / unitsizey, maxval)?;
+            let unitsz = to_units::<T>(distz / unitsizez, maxval)?;
 
             data.push(CompressedPoint3D {
                 unitsx,
@@ -112,3 +112,18 @@ where
         pc
     }
 }
+
+//------------------------------------------------------------------------------
+
+/// Converts to units, the largest number stands for everything from there on
+/// (wide numbers are rounded up when converting their maximum to f64)
+fn to_units<T>(units: f64, maxval: f64) -> Result<T>
+where
+    T: Unsigned + PrimInt,
+{
+    if units >= maxval {
+        Ok(T::max_value())
+    } else {
+        T::from(units).ok_or(ErrorKind::NumberConversionError)
+    }
+}
-- 
2.43.0


From c68fd3831101603180658923743d660cc7bbd5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:24 +0000
Subject: [PATCH 40/40] fix: douglas_peucker_2d exceeded its tolerance, ignored
 deviations from vertical lines and did not end for negative tolerances

---
 src/douglas_peucker_2d.rs | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/src/douglas_peucker_2d.rs b/src/douglas_peucker_2d.rs
index 162ed0d..1d6b744 100644
--- a/src/douglas_peucker_2d.rs
+++ b/src/douglas_peucker_2d.rs
@@ -31,7 +31,7 @@ pub fn douglas_peucker_2d<P>(mut pc: PointCloud2D<P>, epsilon: f64) -> PointClou
 where
     P: Is2D + Clone,
 {
-    if pc.len() < 1 {
+    if pc.len() < 3 {
         return pc;
     }
 
@@ -47,11 +47,11 @@ where
         }
     }
 
-    if dmax > epsilon {
+    if dmax > epsilon.max(0.0) {
         let mut pc1 = pc.clone();
         let mut pc2 = pc.clone();
 
-        pc1.data = pc.data.iter().cloned().take(index).collect();
+        pc1.data = pc.data.iter().cloned().take(index + 1).collect();
         pc1 = douglas_peucker_2d(pc1, epsilon);
 
         pc2.data = pc.data.into_iter().skip(index).collect();
@@ -79,25 +79,13 @@ where
     Q: Is2D,
     R: Is2D,
 {
-    let a1 = l1.x();
-    let a2 = l1.y();
+    let (dx, dy) = (l2.x() - l1.x(), l2.y() - l1.y());
+    let (px, py) = (p.x() - l1.x(), p.y() - l1.y());
+    let length = (dx * dx + dy * dy).sqrt();
 
-    let b1 = l2.x();
-    let b2 = l2.y();
-
-    let c1 = p.x();
-    let c2 = p.y();
-
-    let x = (a1 * a1 * c1 - a1 * a2 * b2 + a1 * a2 * c2 - 2.0 * a1 * b1 * c1 + a1 * b2 * b2
-        - a1 * b2 * c2
-        + a2 * a2 * b1
-        - a2 * b1 * b2
-        - a2 * b1 * c2
-        + b1 * b1 * c1
-        + b1 * b2 * c2)
-        / (a1 * a1 - 2.0 * a1 * b1 + a2 * a2 - 2.0 * a2 * b2 + b1 * b1 + b2 * b2);
-
-    let y = ((a2 - b2) * x + a1 * b2 - a2 * b1) / (a1 - b1);
-
-    ((x - p.x()).powi(2) + (y - p.y()).powi(2)).sqrt()
+    if length > 0.0 {
+        (dx * py - dy * px).abs() / length
+    } else {
+        (px * px + py * py).sqrt()
+    }
 }
-- 
2.43.0

