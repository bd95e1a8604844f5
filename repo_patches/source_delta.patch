From fc65ddf9cd0e090612f6b618c1e728e5a96984c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:55 +0000
Subject: [PATCH 01/30] fix: read footprint coordinates by kind, and pad
 rect_delta after size

A coordinate of another kind than the expected one was dropped without an
error.  A pad's rect_delta was written after the drill, where it could not
be read back, and was not read at all after a size.
---
 src/footprint/de.rs  | 56 +++++++++++++++++++-------------------------
 src/footprint/ser.rs |  6 ++---
 2 files changed, 27 insertions(+), 35 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 45d7328..1e4f3fe 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -77,7 +77,7 @@ impl FromSexp for Font {
     fn from_sexp(s: &Sexp) -> Result<Font, SexpError> {
         let mut i = IterAtom::new(s, "font")?;
         let mut font = Font::default();
-        if let Some(xy) = i.maybe_t::<Xy>() {
+        if let Some(xy) = maybe_xy(&mut i, XyType::Size) {
             font.size.x = xy.x;
             font.size.y = xy.y;
         }
@@ -148,6 +148,14 @@ impl FromSexp for Xy {
     }
 }
 
+// take the next element only when it is an Xy of the wanted type
+fn maybe_xy(i: &mut IterAtom, t: XyType) -> Option<Xy> {
+    match i.iter.peek().map(|s| Xy::from_sexp(s)) {
+        Some(Ok(ref xy)) if xy.t == t => i.maybe_t(),
+        _ => None,
+    }
+}
+
 impl FromSexp for Pts {
     fn from_sexp(s: &Sexp) -> Result<Pts, SexpError> {
         let mut i = IterAtom::new(s, "pts")?;
@@ -246,14 +254,10 @@ impl FromSexp for Pad {
         if let Some(at) = i.maybe_t::<At>() {
             pad.at = at;
         }
-        if let Some(xy) = i.maybe_t::<Xy>() {
-            if xy.t == XyType::Size {
-                pad.size = xy;
-            } else if xy.t == XyType::RectDelta {
-                pad.rect_delta = Some(xy);
-            }
-            // else ignore
+        if let Some(xy) = maybe_xy(&mut i, XyType::Size) {
+            pad.size = xy;
         }
+        pad.rect_delta = maybe_xy(&mut i, XyType::RectDelta);
         pad.drill = i.maybe_t::<Drill>();
         if let Some(layers) = i.maybe_t::<Layers>() {
             pad.layers = layers;
@@ -297,15 +301,11 @@ impl FromSexp for FpLine {
     fn from_sexp(s: &Sexp) -> Result<FpLine, SexpError> {
         let mut i = IterAtom::new(s, "fp_line")?;
         let mut fp_line = FpLine::default();
-        if let Some(xy) = i.maybe_t::<Xy>() {
-            if xy.t == XyType::Start {
-                fp_line.start = xy;
-            }
+        if let Some(xy) = maybe_xy(&mut i, XyType::Start) {
+            fp_line.start = xy;
         }
-        if let Some(xy) = i.maybe_t::<Xy>() {
-            if xy.t == XyType::End {
-                fp_line.end = xy;
-            }
+        if let Some(xy) = maybe_xy(&mut i, XyType::End) {
+            fp_line.end = xy;
         }
         if let Some(layer) = i.maybe_t::<Layer>() {
             fp_line.layer = layer;
@@ -322,15 +322,11 @@ impl FromSexp for FpCircle {
     fn from_sexp(s: &Sexp) -> Result<FpCircle, SexpError> {
         let mut i = IterAtom::new(s, "fp_circle")?;
         let mut fp_circle = FpCircle::default();
-        if let Some(xy) = i.maybe_t::<Xy>() {
-            if xy.t == XyType::Center {
-                fp_circle.center = xy;
-            }
+        if let Some(xy) = maybe_xy(&mut i, XyType::Center) {
+            fp_circle.center = xy;
         }
-        if let Some(xy) = i.maybe_t::<Xy>() {
-            if xy.t == XyType::End {
-                fp_circle.end = xy;
-            }
+        if let Some(xy) = maybe_xy(&mut i, XyType::End) {
+            fp_circle.end = xy;
         }
         if let Some(layer) = i.maybe_t::<Layer>() {
             fp_circle.layer = layer;
@@ -347,15 +343,11 @@ impl FromSexp for FpArc {
     fn from_sexp(s: &Sexp) -> Result<FpArc, SexpError> {
         let mut i = IterAtom::new(s, "fp_arc")?;
         let mut fp_arc = FpArc::default();
-        if let Some(xy) = i.maybe_t::<Xy>() {
-            if xy.t == XyType::Start {
-                fp_arc.start = xy;
-            }
+        if let Some(xy) = maybe_xy(&mut i, XyType::Start) {
+            fp_arc.start = xy;
         }
-        if let Some(xy) = i.maybe_t::<Xy>() {
-            if xy.t == XyType::End {
-                fp_arc.end = xy;
-            }
+        if let Some(xy) = maybe_xy(&mut i, XyType::End) {
+            fp_arc.end = xy;
         }
         if let Some(angle) = i.maybe_f_in_list("angle") {
             fp_arc.angle = angle;
diff --git a/src/footprint/ser.rs b/src/footprint/ser.rs
index a986475..bc13b88 100644
--- a/src/footprint/ser.rs
+++ b/src/footprint/ser.rs
@@ -200,12 +200,12 @@ impl IntoSexp for Pad {
         v.push(self.shape.into_sexp());
         v.push(self.at.into_sexp());
         v.push(self.size.into_sexp());
-        if let Some(ref drill) = self.drill {
-            v.push(drill.into_sexp());
-        }
         if let Some(ref rect_delta) = self.rect_delta {
             v.push(rect_delta.into_sexp());
         }
+        if let Some(ref drill) = self.drill {
+            v.push(drill.into_sexp());
+        }
         v.push(self.layers.into_sexp());
         if let Some(ref net) = self.net {
             v.push(net.into_sexp());
-- 
2.43.0


From e4e30927c0b339bb70938960a7f3d90c526b81aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:21 +0000
Subject: [PATCH 02/30] fix: keep layer names with more than one dot whole

Everything after the first dot was lost.
---
 src/footprint/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index a701e10..bb37b0e 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -950,7 +950,7 @@ impl Layer {
             };
             sp[1]
         } else {
-            sp[0]
+            s
         };
 
         let t = match s_t {
-- 
2.43.0


From b20b5f5c2360e706b219dc9bb6e4ed0d008474c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:21 +0000
Subject: [PATCH 03/30] fix: read back pad drills without a width

A drill of width zero is written without its width, which could not be
read.  Its height, when different, was read back as the width.
---
 src/footprint/de.rs  | 2 +-
 src/footprint/ser.rs | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 1e4f3fe..0add7d4 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -192,7 +192,7 @@ impl FromSexp for Drill {
         let mut i = IterAtom::new(s, "drill")?;
         let mut drill = Drill::default();
         drill.shape = i.maybe_literal_s("oval");
-        drill.width = i.f("width")?;
+        drill.width = i.maybe_f().unwrap_or(0.0);
         drill.height = i.maybe_f().unwrap_or(drill.width);
         let offset: Offset = i.maybe_t().unwrap_or(Offset(0.0, 0.0));
         drill.offset_x = offset.0;
diff --git a/src/footprint/ser.rs b/src/footprint/ser.rs
index bc13b88..c54703f 100644
--- a/src/footprint/ser.rs
+++ b/src/footprint/ser.rs
@@ -139,10 +139,11 @@ impl IntoSexp for Drill {
         if let Some(ref s) = self.shape {
             v.push(s)
         }
-        if self.width > 0.0 {
+        let has_height = (self.height - self.width).abs() > f64::EPSILON;
+        if self.width > 0.0 || has_height {
             v.push(self.width);
         }
-        if self.height > 0.0 && (self.height - self.width).abs() > f64::EPSILON {
+        if has_height {
             v.push(self.height);
         }
         if self.offset_x != 0.0 || self.offset_y != 0.0 {
-- 
2.43.0


From 662b50211da5c27f0d6b07cab63d26174a8800ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:21 +0000
Subject: [PATCH 04/30] fix: reject extra values in single-value footprint
 elements

They were dropped without an error.
---
 src/footprint/de.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 0add7d4..b0fcb7b 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -109,8 +109,8 @@ where
     F: Fn(f64) -> Part,
 {
     let v = e.list()?;
-    if v.len() < 2 {
-        return Err(format!("not enough elements in {}", e).into());
+    if v.len() != 2 {
+        return Err(format!("expecting one value in {}", e).into());
     }
     let f = v[1].f()?;
     Ok(make(f))
@@ -121,8 +121,8 @@ where
     F: Fn(i64) -> Part,
 {
     let v = e.list()?;
-    if v.len() < 2 {
-        return Err(format!("not enough elements in {}", e).into());
+    if v.len() != 2 {
+        return Err(format!("expecting one value in {}", e).into());
     }
     let i = v[1].i()?;
     Ok(make(i))
@@ -379,21 +379,23 @@ impl FromSexp for Model {
 fn parse_string_element(s: &Sexp) -> Result<String, SexpError> {
     let name = s.list_name()?;
     let mut i = IterAtom::new(s, name)?;
-    Ok(i.s("element")?)
+    let x = i.s("element")?;
+    i.close(x)
 }
 
 fn parse_float_element(s: &Sexp) -> Result<f64, SexpError> {
     let name = s.list_name()?;
     let mut i = IterAtom::new(s, name)?;
-    Ok(i.f("element")?)
+    let x = i.f("element")?;
+    i.close(x)
 }
 
 fn parse_stamp_element(s: &Sexp) -> Result<i64, SexpError> {
     let name = s.list_name()?;
     let mut i = IterAtom::new(s, name)?;
     let s = i.s("element")?;
-    let i = i64::from_str_radix(&s, 16)?;
-    Ok(i)
+    let x = i64::from_str_radix(&s, 16)?;
+    i.close(x)
 }
 
 impl FromSexp for Element {
-- 
2.43.0


From 478e1964864124888e77b3a72a9fe615c75ecf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:22 +0000
Subject: [PATCH 05/30] fix: reject extra elements in fp-lib-table entries

They were dropped without an error.
---
 src/fp_lib_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp_lib_table.rs b/src/fp_lib_table.rs
index 308b23d..e017ddc 100644
--- a/src/fp_lib_table.rs
+++ b/src/fp_lib_table.rs
@@ -78,7 +78,7 @@ impl FromSexp for Lib {
         let uri = i.s_in_list("uri")?;
         let options = i.s_in_list("options")?;
         let descr = i.s_in_list("descr")?;
-        Ok(Lib {
+        i.close(Lib {
             name: name,
             type_: type_,
             uri: uri,
-- 
2.43.0


From c575f90a72de890823d2a2f3dae41ac5195ed770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:22 +0000
Subject: [PATCH 06/30] fix: only accept hide as the last word of a board layer

Any other word was turned into hide.
---
 src/layout/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/de.rs b/src/layout/de.rs
index eaca0e1..b28718b 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -134,7 +134,7 @@ impl FromSexp for Layer {
         let num = i.i("num")?;
         let layer = footprint::Layer::from_string(&i.s("layer")?)?;
         let layer_type = i.t("layer_type")?;
-        let hide = i.maybe_s().is_some();
+        let hide = i.maybe_literal_s("hide").is_some();
         i.close(Layer {
             num: num,
             layer: layer,
-- 
2.43.0


From dddcdb7659aaeace219b6d5af2c2f6660aa482da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:23 +0000
Subject: [PATCH 07/30] fix: reject unknown zone keepout values

They were read as allowed.
---
 src/layout/de.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/layout/de.rs b/src/layout/de.rs
index b28718b..0b95177 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -402,11 +402,18 @@ impl FromSexp for ConnectPads {
 }
 impl FromSexp for Keepout {
     fn from_sexp(s: &Sexp) -> Result<Keepout, SexpError> {
+        fn allowed(s: &str) -> Result<bool, SexpError> {
+            match s {
+                "allowed" => Ok(true),
+                "not_allowed" => Ok(false),
+                _ => Err(format!("unknown keepout value {}", s).into()),
+            }
+        }
         let mut keepout = Keepout::default();
         let mut i = IterAtom::new(s, "keepout")?;
-        keepout.tracks = !i.s_in_list("tracks")?.starts_with("not");
-        keepout.vias = !i.s_in_list("vias")?.starts_with("not");
-        keepout.copperpour = !i.s_in_list("copperpour")?.starts_with("not");
+        keepout.tracks = allowed(&i.s_in_list("tracks")?)?;
+        keepout.vias = allowed(&i.s_in_list("vias")?)?;
+        keepout.copperpour = allowed(&i.s_in_list("copperpour")?)?;
         i.close(keepout)
     }
 }
-- 
2.43.0


From f4ab90c802483b78b16f9f154683fb3eb582d245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:23 +0000
Subject: [PATCH 08/30] fix: read the zone fill mode by its value

Every mode, even polygon, was read as segment.
---
 src/layout/de.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/layout/de.rs b/src/layout/de.rs
index 0b95177..2abb96e 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -424,7 +424,12 @@ impl FromSexp for Fill {
         let mut fill = Fill::default();
         let mut i = IterAtom::new(s, "fill")?;
         fill.filled = i.maybe_literal_s("yes").is_some();
-        fill.segment = i.maybe_s_in_list("mode").is_some();
+        fill.segment = match i.maybe_s_in_list("mode") {
+            Some(ref m) if m == "segment" => true,
+            Some(ref m) if m == "polygon" => false,
+            Some(m) => return Err(format!("unknown fill mode {}", m).into()),
+            None => false,
+        };
         fill.arc_segments = i.i_in_list("arc_segments")?;
         fill.thermal_gap = i.f_in_list("thermal_gap")?;
         fill.thermal_bridge_width = i.f_in_list("thermal_bridge_width")?;
-- 
2.43.0


From 0a5a9ad4b909fd7c4625ebbe4cde93b3e294eaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:23 +0000
Subject: [PATCH 09/30] fix: keep every fill_segments part of a zone

All but the last were lost; KiCad writes one per line of the fill.
---
 src/layout/de.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/layout/de.rs b/src/layout/de.rs
index 2abb96e..1924591 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -355,9 +355,13 @@ impl FromSexp for Zone {
                 polygons.push(p.0)
             } else if let Ok(p) = FilledPolygon::from_sexp(x) {
                 filled_polygons.push(p.0)
-            } else if let Ok(p) = FillSegments::from_sexp(x) {
-                fill_segments = Some(p.0);
             } else {
+                if fill_segments.is_none() {
+                    if let Ok(p) = FillSegments::from_sexp(x) {
+                        fill_segments = Some(p.0);
+                        continue;
+                    }
+                }
                 others.push(x.clone());
                 debug!("'zone': not parsing {}", x);
             }
-- 
2.43.0


From 54f652f5d4d5e087ef634262ede769d418b89966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:24 +0000
Subject: [PATCH 10/30] fix: report empty lists as an error instead of
 panicking

---
 src/footprint/de.rs | 13 +++++++------
 src/layout/de.rs    | 11 ++++++-----
 src/lib.rs          |  9 +++++++++
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index b0fcb7b..fac9741 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -4,6 +4,7 @@ use Sexp;
 use footprint;
 use footprint::data::*;
 use wrap;
+use list_name;
 use symbolic_expressions::iteratom::*;
 use symbolic_expressions::SexpError;
 
@@ -130,7 +131,7 @@ where
 
 impl FromSexp for Xy {
     fn from_sexp(s: &Sexp) -> Result<Xy, SexpError> {
-        let name: &str = &s.list_name()?[..];
+        let name: &str = &list_name(s)?[..];
         let t: Result<XyType, SexpError> = match name {
             "xy" => Ok(XyType::Xy),
             "start" => Ok(XyType::Start),
@@ -203,7 +204,7 @@ impl FromSexp for Drill {
 
 impl FromSexp for Part {
     fn from_sexp(s: &Sexp) -> Result<Part, SexpError> {
-        let name = &(s.list_name()?)[..];
+        let name = &(list_name(s)?)[..];
         match name {
             "thickness" => parse_part_float(s, Part::Thickness),
             "net" => wrap(s, from_sexp, Part::Net),
@@ -377,21 +378,21 @@ impl FromSexp for Model {
 }
 
 fn parse_string_element(s: &Sexp) -> Result<String, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     let x = i.s("element")?;
     i.close(x)
 }
 
 fn parse_float_element(s: &Sexp) -> Result<f64, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     let x = i.f("element")?;
     i.close(x)
 }
 
 fn parse_stamp_element(s: &Sexp) -> Result<i64, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     let s = i.s("element")?;
     let x = i64::from_str_radix(&s, 16)?;
@@ -406,7 +407,7 @@ impl FromSexp for Element {
                 _ => Err(format!("unknown element in module: {}", s).into()),
             },
             Sexp::List(_) => {
-                let name = s.list_name()?;
+                let name = list_name(s)?;
                 match &name[..] {
                     "solder_mask_margin" => wrap(s, parse_float_element, Element::SolderMaskMargin),
                     "layer" => wrap(s, from_sexp, Element::Layer),
diff --git a/src/layout/de.rs b/src/layout/de.rs
index 1924591..97a9c52 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -6,6 +6,7 @@
 // from parent
 use footprint;
 use wrap;
+use list_name;
 use Sexp;
 use symbolic_expressions::iteratom::*;
 use symbolic_expressions::SexpError;
@@ -190,8 +191,8 @@ impl FromSexp for NetClass {
         let mut diff_pair_width = None;
         let mut nets = vec![];
         for x in i.iter {
-            let list_name = x.list_name()?;
-            let xn = &list_name[..];
+            let field = list_name(x)?;
+            let xn = &field[..];
             match xn {
                 "add_net" => {
                     let l1 = x.named_value_s("add_net")?;
@@ -205,7 +206,7 @@ impl FromSexp for NetClass {
                 "uvia_drill" => uvia_drill = parse(x, xn)?,
                 "diff_pair_gap" => diff_pair_gap = Some(parse(x, xn)?),
                 "diff_pair_width" => diff_pair_width = Some(parse(x, xn)?),
-                _ => return Err(format!("unknown net_class field {}", list_name).into()),
+                _ => return Err(format!("unknown net_class field {}", field).into()),
             }
         }
         let net_class = NetClass {
@@ -231,7 +232,7 @@ impl FromSexp for Setup {
         let mut pcbplotparams = vec![];
         let i = IterAtom::new(s, "setup")?;
         for v in i.iter {
-            let n = v.list_name()?;
+            let n = list_name(v)?;
             if n == "pcbplotparams" {
                 let i2 = IterAtom::new(v, "pcbplotparams")?;
                 for y in i2.iter {
@@ -481,7 +482,7 @@ impl FromSexp for Layout {
         let mut layout = Layout::default();
         // TODO: read in order instead of matching on iter
         for e in i.iter {
-            match (e.list_name()?).as_str() {
+            match (list_name(e)?).as_str() {
                 "version" => layout.version = Version::from_sexp(e)?.0,
                 "host" => layout.host = from_sexp(e)?,
                 "general" => layout.general = from_sexp(e)?,
diff --git a/src/lib.rs b/src/lib.rs
index 4c7f9c2..b36604e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -244,6 +244,15 @@ where
     Ok(wrapper(make(s)?))
 }
 
+// the name a list starts with; unlike `Sexp::list_name` this doesn't panic
+// on an empty list
+fn list_name(s: &Sexp) -> result::Result<&String, SexpError> {
+    match s.list()?.first() {
+        Some(e) => e.string(),
+        None => Err("unexpected empty list".into()),
+    }
+}
+
 #[derive(Debug)]
 /// A bounding box
 pub struct Bound {
-- 
2.43.0


From f580b0f7dea3ba92db09ee0c9b6a391522894b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:49 +0000
Subject: [PATCH 11/30] fix: write every drill height that differs from the
 width

A height within the float epsilon of the width was read back as the width.
---
 src/footprint/ser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/footprint/ser.rs b/src/footprint/ser.rs
index c54703f..ef78396 100644
--- a/src/footprint/ser.rs
+++ b/src/footprint/ser.rs
@@ -3,7 +3,6 @@
 use Sexp;
 use symbolic_expressions::IntoSexp;
 use footprint::data::*;
-use std::f64;
 
 impl IntoSexp for Module {
     fn into_sexp(&self) -> Sexp {
@@ -139,7 +138,7 @@ impl IntoSexp for Drill {
         if let Some(ref s) = self.shape {
             v.push(s)
         }
-        let has_height = (self.height - self.width).abs() > f64::EPSILON;
+        let has_height = self.height != self.width;
         if self.width > 0.0 || has_height {
             v.push(self.width);
         }
-- 
2.43.0


From 0261b0cc5163f671d209250526082c2eb0db74a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:02 +0000
Subject: [PATCH 12/30] fix: reject negative zone priorities

They were read as huge positive ones.
---
 src/layout/de.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/layout/de.rs b/src/layout/de.rs
index 97a9c52..1241d54 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -342,7 +342,11 @@ impl FromSexp for Zone {
         let layer = i.t("layer")?;
         let tstamp = i.s_in_list("tstamp")?;
         let hatch = i.t("hatch")?;
-        let priority = i.maybe_i_in_list("priority").unwrap_or(0) as u64;
+        let priority = i.maybe_i_in_list("priority").unwrap_or(0);
+        if priority < 0 {
+            return Err(format!("negative zone priority {}", priority).into());
+        }
+        let priority = priority as u64;
         let connect_pads = i.t("connect_pads")?;
         let min_thickness = i.f_in_list("min_thickness")?;
         let keepout = i.maybe_t();
-- 
2.43.0


From 1d4ad10bc367a84aadcb90a105de3d01abb90ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:02 +0000
Subject: [PATCH 13/30] fix: order the corners of footprint line and arc bounds

---
 src/footprint/data.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index bb37b0e..2dc1fbd 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -1218,7 +1218,11 @@ impl Default for FpLine {
 
 impl BoundingBox for FpLine {
     fn bounding_box(&self) -> Bound {
-        Bound::new(self.start.x, self.start.y, self.end.x, self.end.y)
+        let x1 = self.start.x.min(self.end.x);
+        let y1 = self.start.y.min(self.end.y);
+        let x2 = self.start.x.max(self.end.x);
+        let y2 = self.start.y.max(self.end.y);
+        Bound::new(x1, y1, x2, y2)
     }
 }
 
@@ -1318,7 +1322,11 @@ impl Flip for FpArc {
 impl BoundingBox for FpArc {
     fn bounding_box(&self) -> Bound {
         // perhaps not correct
-        Bound::new(self.start.x, self.start.y, self.end.x, self.end.y)
+        let x1 = self.start.x.min(self.end.x);
+        let y1 = self.start.y.min(self.end.y);
+        let x2 = self.start.x.max(self.end.x);
+        let y2 = self.start.y.max(self.end.y);
+        Bound::new(x1, y1, x2, y2)
     }
 }
 
-- 
2.43.0


From 6345cbcfe995fc37fe903802fae39a0898fa2e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:02 +0000
Subject: [PATCH 14/30] fix: take the via size as a diameter in its bound

---
 src/layout/data.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/layout/data.rs b/src/layout/data.rs
index 8a7b6ce..a64c8d6 100644
--- a/src/layout/data.rs
+++ b/src/layout/data.rs
@@ -591,10 +591,11 @@ impl Adjust for Via {
 
 impl BoundingBox for Via {
     fn bounding_box(&self) -> Bound {
-        let x1 = self.at.x - self.size;
-        let y1 = self.at.y - self.size;
-        let x2 = self.at.x + self.size;
-        let y2 = self.at.y + self.size;
+        let r = self.size / 2.0;
+        let x1 = self.at.x - r;
+        let y1 = self.at.y - r;
+        let x2 = self.at.x + r;
+        let y2 = self.at.y + r;
         Bound::new(x1, y1, x2, y2)
     }
 }
-- 
2.43.0


From afde0220c16137bac22e9f6d0f9d13e5080cd115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:02 +0000
Subject: [PATCH 15/30] fix: swap the sides of a pad bound at every odd quarter
 turn

---
 src/footprint/data.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index 2dc1fbd..fac6baf 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -1136,10 +1136,7 @@ impl BoundingBox for Pad {
     fn bounding_box(&self) -> Bound {
         let x = self.at.x;
         let y = self.at.y;
-        let (dx, dy) = if (self.at.rot - 90.0).abs() < 0.1 || (self.at.rot + 90.0).abs() < 0.1
-            || (self.at.rot - 270.0).abs() < 0.1
-            || (self.at.rot + 270.0).abs() < 0.1
-        {
+        let (dx, dy) = if ((self.at.rot % 180.0).abs() - 90.0).abs() < 0.1 {
             (self.size.y, self.size.x)
         } else {
             (self.size.x, self.size.y)
-- 
2.43.0


From 1c8984001848b99f4751f9aac5ccc27be5113ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:02 +0000
Subject: [PATCH 16/30] fix: place the bound of a component at its x position

---
 src/schematic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 86d3170..912b356 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -433,7 +433,7 @@ impl Default for Component {
 impl BoundingBox for Component {
     fn bounding_box(&self) -> Bound {
         debug!("Component bound calculation is poor");
-        Bound::new_from_i64(self.y, self.y, self.x, self.y)
+        Bound::new_from_i64(self.x, self.y, self.x, self.y)
     }
 }
 
-- 
2.43.0


From ce1fc1e32504851828abb36c388f5d661d44d5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:02 +0000
Subject: [PATCH 17/30] fix: keep rotations within one turn from any start
 angle

---
 src/footprint/data.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index fac6baf..4b225e7 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -610,10 +610,7 @@ impl At {
 
 impl Rotate for At {
     fn rotate(&mut self, rot: f64) {
-        self.rot += rot;
-        if self.rot >= 360.0 {
-            self.rot -= 360.0
-        }
+        self.rot = (self.rot + rot) % 360.0;
         if self.rot < 0.0 {
             self.rot += 360.0
         }
-- 
2.43.0


From 1279c72c79177654ac38cd359c30cbf60866f1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:38 +0000
Subject: [PATCH 18/30] fix: replace neighbouring equal blocks in net names

---
 src/layout/data.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/layout/data.rs b/src/layout/data.rs
index a64c8d6..e718c60 100644
--- a/src/layout/data.rs
+++ b/src/layout/data.rs
@@ -285,8 +285,15 @@ impl NetName {
     pub fn replace_block(&mut self, from: &str, to: &str) {
         let from_pat = format!("/{}/", from);
         let to_pat = format!("/{}/", to);
-        let n = self.0.replace(&from_pat, &to_pat);
-        self.0 = n;
+        // neighbouring blocks share their slash
+        let mut pos = 0;
+        while let Some(i) = self.0[pos..].find(&from_pat) {
+            let start = pos + i;
+            let rest = self.0.split_off(start);
+            self.0.push_str(&to_pat);
+            self.0.push_str(&rest[from_pat.len()..]);
+            pos = start + to_pat.len() - 1;
+        }
     }
 
     /// rename a net
-- 
2.43.0


From 4fb2d8bbb9a5800f50623d30060e51218a860742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:57 +0000
Subject: [PATCH 19/30] fix: refuse a schematic that ends inside a block

---
 src/schematic.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 912b356..a20b064 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -249,7 +249,7 @@ impl ParseState {
     }
 
     fn here(&self) -> String {
-        (self.v[self.i]).clone()
+        self.v.get(self.i).cloned().unwrap_or_default()
     }
 
     fn next(&mut self) {
@@ -1279,6 +1279,9 @@ fn parse_component(p: &mut ParseState) -> Result<Component, KicadError> {
     let mut d = Component::default();
     p.next();
     loop {
+        if p.eof() {
+            return str_error("end of file reached in component".to_string());
+        }
         let s = p.here();
         if s == "$EndComp" {
             break;
@@ -1374,6 +1377,9 @@ fn parse_sheet(p: &mut ParseState) -> Result<Sheet, KicadError> {
     let mut s = Sheet::default();
     p.next();
     loop {
+        if p.eof() {
+            return str_error("end of file reached in sheet".to_string());
+        }
         let st = p.here();
         if st == "$EndSheet" {
             break;
@@ -1483,6 +1489,9 @@ fn parse_text(p: &mut ParseState) -> Result<Text, KicadError> {
     };
     let thickness = i64_from_string(p, &String::from(v[index + 1]))?;
     p.next();
+    if p.eof() {
+        return str_error("end of file reached in text".to_string());
+    }
     let text = p.here();
     Ok(Text {
         t: t,
-- 
2.43.0


From 967ff974dd8b8cc090cd36472ba4cb930dea84fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:57 +0000
Subject: [PATCH 20/30] fix: keep blank lines of a schematic

---
 src/schematic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index a20b064..cebb850 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -1562,7 +1562,7 @@ pub fn parse(filename: Option<PathBuf>, s: &str) -> Result<Schematic, KicadError
                     sch.append_text(w)
                 }
                 Some(_) => sch.append_other(p.here()),
-                None => unreachable!(),
+                None => sch.append_other(p.here()),
             }
         }
         p.next()
-- 
2.43.0


From 64449ff61015907a4baa7949d3ad081a5346eb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:57 +0000
Subject: [PATCH 21/30] fix: refuse a label line without its last word

---
 src/schematic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/schematic.rs b/src/schematic.rs
index cebb850..ae32975 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -1476,6 +1476,9 @@ fn parse_text(p: &mut ParseState) -> Result<Text, KicadError> {
     let y1 = i64_from_string(p, &String::from(v[3]))?;
     let orientation = i64_from_string(p, &String::from(v[4]))?;
     let size = i64_from_string(p, &String::from(v[5]))?;
+    if !t.is_local() && v.len() < 9 {
+        return str_error(format!("expecting 9 elements in {}", s));
+    }
     let mut index = 6;
     let shape = if !t.is_local() {
         index = 7;
-- 
2.43.0


From 953e13431daded192012f7173027f03aa621edbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:57 +0000
Subject: [PATCH 22/30] fix: refuse too short words of a schematic field

---
 src/schematic.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index ae32975..aa2e057 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -1127,8 +1127,7 @@ impl fmt::Display for Text {
 }
 
 fn char_at(s: &str, p: usize) -> char {
-    let v: Vec<char> = s.chars().collect();
-    v[..][p]
+    s.chars().nth(p).unwrap_or(' ')
 }
 
 
-- 
2.43.0


From 0852d0bbf84a65d192943a1cd667cbe1aba22e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:57 +0000
Subject: [PATCH 23/30] fix: refuse a symbol library with short words or
 missing lines

---
 src/symbol_lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index f815958..c43a492 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -609,7 +609,7 @@ impl ParseState {
     }
 
     fn here(&self) -> String {
-        (self.v[self.i]).clone()
+        self.v.get(self.i).cloned().unwrap_or_default()
     }
 
     fn next(&mut self) {
@@ -653,8 +653,7 @@ fn bool_from_string(s: &str, t: &'static str, f: &'static str) -> Result<bool, K
 }
 
 fn char_at(s: &str, p: usize) -> char {
-    let v: Vec<char> = s.chars().collect();
-    v[..][p]
+    s.chars().nth(p).unwrap_or(' ')
 }
 
 fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
-- 
2.43.0


From 45bb175bcc7f938b39d0e75a39d0a756777d6c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:57 +0000
Subject: [PATCH 24/30] fix: write bold symbol fields so that they can be read

---
 src/symbol_lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index c43a492..ec0ff4b 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -400,7 +400,7 @@ impl fmt::Display for Field {
             self.hjustify,
             self.vjustify,
             if self.italic { "I" } else { "N" },
-            if self.bold { "I" } else { "N" },
+            if self.bold { "B" } else { "N" },
         )?;
         if self.i > 3 {
             write!(f, " \"{}\"", self.name)?
-- 
2.43.0


From d27f1d9bcf2a4c9cabc07fff2f4692fcbe0f2f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:57 +0000
Subject: [PATCH 25/30] fix: read and write the rotation of components of any
 unit

---
 src/schematic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index aa2e057..cba588f 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -596,7 +596,7 @@ impl fmt::Display for Component {
         writeln!(
             f,
             "\t{:4} {:4} {:4}",
-            "1",
+            self.u.split_whitespace().nth(1).unwrap_or("1"),
             format!("{}", self.x),
             (format!("{}", self.y))
         )?;
@@ -1290,8 +1290,8 @@ fn parse_component(p: &mut ParseState) -> Result<Component, KicadError> {
             Some("U") => parse_component_u(p, &mut d)?,
             Some("P") => parse_component_p(p, &mut d)?,
             Some("F") => parse_component_f(p, &mut d)?,
-            Some("1") | Some("0") => parse_component_rotation(p, &mut d)?,
             Some("AR") => parse_component_ar(p, &mut d)?,
+            Some(w) if i64::from_str(w).is_ok() => parse_component_rotation(p, &mut d)?,
             _ => println!("skipping unknown component line {}", s),
         }
         p.next()
-- 
2.43.0


From c25ab15a9a6f8f0de84ca5cd515cb83d6fccdcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:57 +0000
Subject: [PATCH 26/30] fix: refuse wires of unknown type

---
 src/schematic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index cba588f..f545912 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -1409,7 +1409,8 @@ fn parse_wire(p: &mut ParseState) -> Result<Wire, KicadError> {
     let t = match v[1] {
         "Notes" => WireType::Notes,
         "Bus" => WireType::Bus,
-        _ => WireType::Wire,
+        "Wire" => WireType::Wire,
+        x => return str_error(format!("unknown wire type {}", x)),
     };
     p.next();
     let s = p.here();
-- 
2.43.0


From f11a51e0355ca14e9ecfa5202933900154d7ca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:57 +0000
Subject: [PATCH 27/30] fix: write and rename symbols with fewer than two
 fields

---
 src/symbol_lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index ec0ff4b..a943ea0 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -295,8 +295,9 @@ impl Symbol {
         } else {
             self.name = name.to_string()
         }
-        let field = &mut self.fields[1];
-        field.value = name.to_string()
+        if let Some(field) = self.fields.get_mut(1) {
+            field.value = name.to_string()
+        }
     }
 
     /// get the list of pins on the symbol
@@ -331,7 +332,7 @@ impl Symbol {
 
 impl fmt::Display for Symbol {
     fn fmt(&self, f: &mut fmt::Formatter) -> result::Result<(), fmt::Error> {
-        writeln!(f, "# {}", &&self.fields[1].value)?;
+        writeln!(f, "# {}", self.fields.get(1).map_or(&self.name, |x| &x.value))?;
         writeln!(f, "#")?;
         writeln!(
             f,
-- 
2.43.0


From 46ca5d6a01f2732b6859322f69e9c2ee2d1b7760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:58 +0000
Subject: [PATCH 28/30] fix: check pins against the 100 mil and 50 mil grids

---
 src/symbol_lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index a943ea0..5139863 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -942,7 +942,7 @@ impl CheckFix for Pin {
         let mut v = vec![];
         let name = format!("{}:{}", self.name, self.number);
         // 4.1 Using a 100mil grid, pin origin must lie on grid nodes (IEC-60617)
-        if (self.x % 10) != 0 {
+        if (self.x % 100) != 0 {
             v.push(CheckFixData::new(
                 4,
                 1,
@@ -950,7 +950,7 @@ impl CheckFix for Pin {
                 "pin x not on 100mil grid",
             ));
         }
-        if (self.y % 10) != 0 {
+        if (self.y % 100) != 0 {
             v.push(CheckFixData::new(
                 4,
                 1,
@@ -959,7 +959,7 @@ impl CheckFix for Pin {
             ));
         }
         // 4.1 Pin length can be incremented in steps of 50mils (1.27mm) if required e.g. for long pin numbers
-        if (self.len % 5) != 0 {
+        if (self.len % 50) != 0 {
             v.push(CheckFixData::new(
                 4,
                 1,
-- 
2.43.0


From acc694c92342639af152993c34091019d6210be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:34 +0000
Subject: [PATCH 29/30] fix: refuse labels and notes of unknown style

---
 src/schematic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index f545912..5e5f327 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -1488,7 +1488,8 @@ fn parse_text(p: &mut ParseState) -> Result<Text, KicadError> {
     };
     let italic = match v[index] {
         "Italic" => true,
-        _ => false,
+        "~" => false,
+        x => return str_error(format!("unknown text style {} in {}", x, s)),
     };
     let thickness = i64_from_string(p, &String::from(v[index + 1]))?;
     p.next();
-- 
2.43.0


From d72926bbf88b1adb177d88ca563db54f783474d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:34 +0000
Subject: [PATCH 30/30] fix: order an empty reference instead of panicking

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b36604e..08cba66 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -356,7 +356,7 @@ pub trait Adjust {
 /// ordering used for ordering by component reference
 /// to e.g. avoid U1 U101 U2 and get U1 U2 U101
 pub fn reference_ord(r: &str) -> (char, i64) {
-    let c = r.chars().nth(0).unwrap();
+    let c = r.chars().nth(0).unwrap_or(' ');
     let mut s = String::new();
     for c in r.chars() {
         if c >= '0' && c <= '9' {
-- 
2.43.0

