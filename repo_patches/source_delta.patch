From 8b526bd6641580b9f3e7a6e242fc969255958355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:57 +0000
Subject: [PATCH 01/39] fix: table merge region bounds overflow for spans near
 usize::MAX

---
 src/generator/slide_content/table_merge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/slide_content/table_merge.rs b/src/generator/slide_content/table_merge.rs
index 2719d41..ddd359e 100644
--- a/src/generator/slide_content/table_merge.rs
+++ b/src/generator/slide_content/table_merge.rs
@@ -23,12 +23,12 @@ impl MergeRegion {
 
     /// Last row index (inclusive)
     pub fn last_row(&self) -> usize {
-        self.row + self.row_span - 1
+        self.row.saturating_add(self.row_span.saturating_sub(1))
     }
 
     /// Last column index (inclusive)
     pub fn last_col(&self) -> usize {
-        self.col + self.col_span - 1
+        self.col.saturating_add(self.col_span.saturating_sub(1))
     }
 
     /// Check if a cell (r, c) is inside this merge region
-- 
2.43.0


From 8348dd2fa8a6aa8b788081a9647c09429369e378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:55 +0000
Subject: [PATCH 02/39] fix: escape the document title in docProps/core.xml

---
 src/generator/props_xml.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generator/props_xml.rs b/src/generator/props_xml.rs
index 9b23ef4..13d0be2 100644
--- a/src/generator/props_xml.rs
+++ b/src/generator/props_xml.rs
@@ -28,6 +28,7 @@ fn current_timestamp() -> String {
 /// Create core properties XML (docProps/core.xml)
 pub fn create_core_props_xml(title: &str) -> String {
     let now = current_timestamp();
+    let title = xml_escape(title);
     format!(
         r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <cp:coreProperties xmlns:cp="http://schemas.openxmlformats.org/package/2006/metadata/core-properties" xmlns:dc="http://purl.org/dc/elements/1.1/" xmlns:dcterms="http://purl.org/dc/terms/" xmlns:dcmitype="http://purl.org/dc/dcmitype/" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">
-- 
2.43.0


From 01c749c32c77b04b0222a560459e262a01f4bb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:07 +0000
Subject: [PATCH 03/39] fix: escape custom bullet characters in the buChar
 attribute

---
 src/generator/slide_content/bullet.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/generator/slide_content/bullet.rs b/src/generator/slide_content/bullet.rs
index ccc976a..fee4b9d 100644
--- a/src/generator/slide_content/bullet.rs
+++ b/src/generator/slide_content/bullet.rs
@@ -1,6 +1,6 @@
 //! Bullet point types and formatting
 
-use crate::core::ToXml;
+use crate::core::{escape_xml, ToXml};
 
 /// Bullet style for lists
 #[derive(Clone, Debug, Copy, PartialEq, Eq, Default)]
@@ -34,7 +34,9 @@ impl BulletStyle {
             BulletStyle::LetterUpper => r#"<a:buAutoNum type="alphaUcPeriod"/>"#.to_string(),
             BulletStyle::RomanLower => r#"<a:buAutoNum type="romanLcPeriod"/>"#.to_string(),
             BulletStyle::RomanUpper => r#"<a:buAutoNum type="romanUcPeriod"/>"#.to_string(),
-            BulletStyle::Custom(ch) => format!(r#"<a:buChar char="{}"/>"#, ch),
+            BulletStyle::Custom(ch) => {
+                format!(r#"<a:buChar char="{}"/>"#, escape_xml(&ch.to_string()))
+            }
             BulletStyle::None => r#"<a:buNone/>"#.to_string(),
         }
     }
-- 
2.43.0


From dc4010ba28be8975084367496fdcaf36ccaddb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:25 +0000
Subject: [PATCH 04/39] fix: escape the title in create_slide_xml

---
 src/generator/slide_xml/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/generator/slide_xml/mod.rs b/src/generator/slide_xml/mod.rs
index d3afdb2..9d56c62 100644
--- a/src/generator/slide_xml/mod.rs
+++ b/src/generator/slide_xml/mod.rs
@@ -13,13 +13,14 @@ mod layouts;
 mod content;
 
 use super::slide_content::{SlideContent, SlideLayout};
+use crate::core::escape_xml;
 
 pub use common::create_slide_rels_xml;
 
 /// Create simple slide XML
 pub fn create_slide_xml(slide_num: usize, title: &str) -> String {
     let slide_title = if slide_num == 1 {
-        title.to_string()
+        escape_xml(title)
     } else {
         format!("Slide {slide_num}")
     };
-- 
2.43.0


From b4f864d0e1b9ba856ea040f1c10b4e39054f3369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:25 +0000
Subject: [PATCH 05/39] fix: lazy generation lost the signature, font and ink
 content types

---
 src/generator/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index ccec2dc..40784ee 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -985,6 +985,8 @@ fn write_content_types_lazy<W: Write + Seek>(
 <Override PartName="/docProps/app.xml" ContentType="application/vnd.openxmlformats-officedocument.extended-properties+xml"/>"#,
     );
     super::layout_parts::append_layout_content_type_overrides(&mut content_types, STANDARD_LAYOUT_COUNT);
+    // The append helpers below insert before the closing tag.
+    content_types.push_str("\n</Types>");
 
     if has_digital_signature(settings) {
         append_digital_signature_content_type(&mut content_types);
@@ -995,8 +997,6 @@ fn write_content_types_lazy<W: Write + Seek>(
 
     super::package_xml::append_ink_content_types(&mut content_types, ink_count);
 
-    content_types.push_str("\n</Types>");
-
     zip.start_file("[Content_Types].xml", *options)?;
     zip.write_all(content_types.as_bytes())?;
     Ok(())
-- 
2.43.0


From fb90c34768aa3587639c8bf85bb06409bde066cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:41 +0000
Subject: [PATCH 06/39] fix: declare a content type for every supported image
 extension

---
 src/generator/package_xml.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index ea5360d..965aca2 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -26,26 +26,22 @@ const CONTENT_TYPES_HEADER: &str = r#"<?xml version="1.0" encoding="UTF-8" stand
 <Override PartName="/ppt/presentation.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"/>"#;
 
 fn append_image_content_type_defaults(xml: &mut String, media_exts: &[String]) {
-    let mut has_jpg = false;
-    let mut has_png = false;
-    let mut has_gif = false;
-    for ext in media_exts {
-        match ext.as_str() {
-            "jpg" | "jpeg" => has_jpg = true,
-            "png" => has_png = true,
-            "gif" => has_gif = true,
-            _ => {}
+    const KNOWN: [(&str, &str); 9] = [
+        ("jpg", r#"<Default Extension="jpg" ContentType="image/jpeg"/>"#),
+        ("jpeg", r#"<Default Extension="jpeg" ContentType="image/jpeg"/>"#),
+        ("png", r#"<Default Extension="png" ContentType="image/png"/>"#),
+        ("gif", r#"<Default Extension="gif" ContentType="image/gif"/>"#),
+        ("bmp", r#"<Default Extension="bmp" ContentType="image/bmp"/>"#),
+        ("tif", r#"<Default Extension="tif" ContentType="image/tiff"/>"#),
+        ("tiff", r#"<Default Extension="tiff" ContentType="image/tiff"/>"#),
+        ("svg", r#"<Default Extension="svg" ContentType="image/svg+xml"/>"#),
+        ("webp", r#"<Default Extension="webp" ContentType="image/webp"/>"#),
+    ];
+    for (ext, default) in KNOWN {
+        if media_exts.iter().any(|e| e == ext) {
+            xml.push_str(default);
         }
     }
-    if has_jpg {
-        xml.push_str(r#"<Default Extension="jpg" ContentType="image/jpeg"/>"#);
-    }
-    if has_png {
-        xml.push_str(r#"<Default Extension="png" ContentType="image/png"/>"#);
-    }
-    if has_gif {
-        xml.push_str(r#"<Default Extension="gif" ContentType="image/gif"/>"#);
-    }
 }
 
 pub fn content_types_opening(media_exts: &[String], chart_count: usize) -> String {
-- 
2.43.0


From 4a1ac9749e9b94470fd289f461170e5f0719f45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:15 +0000
Subject: [PATCH 07/39] fix: pictures without readable data no longer shift
 slide relationship ids

---
 src/generator/builder.rs           | 4 +++-
 src/generator/slide_xml/content.rs | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 40784ee..35b9896 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -1161,7 +1161,9 @@ fn write_slides<W: Write + Seek>(
                 let slide_num = i + 1;
 
                 let mut chart_rids = Vec::with_capacity(slide.charts.len());
-                let start_rid = slide_content_rel_start(slide.notes.is_some(), slide.images.len());
+                // Only images with readable data get a relationship (see slide_image_rel_targets).
+                let image_count = slide.images.iter().filter(|i| i.get_bytes().is_some()).count();
+                let start_rid = slide_content_rel_start(slide.notes.is_some(), image_count);
                 for j in 0..slide.charts.len() {
                     push_chart_rid(&mut chart_rids, start_rid + j);
                 }
diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index d4aac14..da8ce7e 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -30,7 +30,10 @@ pub fn render_additional_content(
     // Render images (actual picture elements, not placeholders)
     let image_start_id = 20 + content.shapes.len();
     let image_rel_start = 2 + usize::from(content.notes.is_some());
-    for (i, image) in content.images.iter().enumerate() {
+    // Images whose data cannot be read get no media part and no relationship, so
+    // they must not be referenced either.
+    let readable_images = content.images.iter().filter(|image| image.get_bytes().is_some());
+    for (i, image) in readable_images.enumerate() {
         xml.push('\n');
         let rel_id = image_rel_start + i;
         xml.push_str(&crate::generator::images_xml::generate_image_xml(
-- 
2.43.0


From ed9546a99da8d5b7a3fada2f35f51eb4d7fc2658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:14 +0000
Subject: [PATCH 08/39] fix: escape font names, panose, language, sign dates
 and relationship ids in generated attributes

---
 src/generator/hyperlinks.rs                      | 6 +++---
 src/generator/layouts/common.rs                  | 1 +
 src/generator/package_xml.rs                     | 2 +-
 src/generator/slide_content/digital_signature.rs | 2 +-
 src/generator/slide_content/embedded_fonts.rs    | 4 ++--
 src/generator/text/rtl.rs                        | 2 +-
 6 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/generator/hyperlinks.rs b/src/generator/hyperlinks.rs
index 4b13be4..11eadd5 100644
--- a/src/generator/hyperlinks.rs
+++ b/src/generator/hyperlinks.rs
@@ -161,7 +161,7 @@ impl Hyperlink {
 
 /// Generate hyperlink XML for text run
 pub fn generate_text_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String {
-    let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, r_id);
+    let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, escape_xml(r_id));
 
     if let Some(tooltip) = &hyperlink.tooltip {
         xml.push_str(&format!(r#" tooltip="{}""#, escape_xml(tooltip)));
@@ -182,7 +182,7 @@ pub fn generate_text_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String
 
 /// Generate hyperlink XML for shape
 pub fn generate_shape_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String {
-    let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, r_id);
+    let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, escape_xml(r_id));
 
     if let Some(tooltip) = &hyperlink.tooltip {
         xml.push_str(&format!(r#" tooltip="{}""#, escape_xml(tooltip)));
@@ -211,7 +211,7 @@ pub fn generate_hyperlink_relationship_xml(hyperlink: &Hyperlink, r_id: &str) ->
 
     format!(
         r#"<Relationship Id="{}" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink" Target="{}"{}/>"#,
-        r_id,
+        escape_xml(r_id),
         escape_xml(&target),
         target_mode
     )
diff --git a/src/generator/layouts/common.rs b/src/generator/layouts/common.rs
index 6498314..5409cb8 100644
--- a/src/generator/layouts/common.rs
+++ b/src/generator/layouts/common.rs
@@ -83,6 +83,7 @@ impl ExtendedTextProps {
         }
         
         if let Some(ref font) = self.font_family {
+            let font = escape_xml(font);
             attrs.push_str(&format!(
                 r#"<a:latin typeface="{font}"/><a:cs typeface="{font}"/>"#
             ));
diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index 965aca2..59cb1d1 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -253,7 +253,7 @@ pub fn create_presentation_rels_xml_full_with_fonts(
             xml.rfind("</Relationships>").unwrap_or(xml.len()),
             &format!(
                 r#"<Relationship Id="{}" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/font" Target="{}"/>"#,
-                font.relationship_id,
+                escape_xml(&font.relationship_id),
                 escape_xml(&target),
             ),
         );
diff --git a/src/generator/slide_content/digital_signature.rs b/src/generator/slide_content/digital_signature.rs
index df533fd..4cfe8c6 100644
--- a/src/generator/slide_content/digital_signature.rs
+++ b/src/generator/slide_content/digital_signature.rs
@@ -170,7 +170,7 @@ impl DigitalSignature {
             self.hash_algorithm.uri(),
             self.commitment_type.uri(),
             self.commitment_type.label(),
-            date,
+            xml_escape(date),
         ));
         xml.push_str(r#"</Object>"#);
         xml.push_str(r#"</Signature>"#);
diff --git a/src/generator/slide_content/embedded_fonts.rs b/src/generator/slide_content/embedded_fonts.rs
index c3b7408..ef48f16 100644
--- a/src/generator/slide_content/embedded_fonts.rs
+++ b/src/generator/slide_content/embedded_fonts.rs
@@ -220,7 +220,7 @@ impl EmbeddedFontList {
             // Font descriptor (from first variant)
             if let Some(first) = variants.first() {
                 let panose_attr = first.panose.as_ref()
-                    .map(|p| format!(r#" panose="{}""#, p))
+                    .map(|p| format!(r#" panose="{}""#, xml_escape(p)))
                     .unwrap_or_default();
                 xml.push_str(&format!(
                     r#"<p:font typeface="{}" charset="{}" pitchFamily="{}"{}/>"#,
@@ -236,7 +236,7 @@ impl EmbeddedFontList {
                 xml.push_str(&format!(
                     r#"<p:{} r:id="{}"/>"#,
                     font.style.xml_element(),
-                    font.relationship_id,
+                    xml_escape(&font.relationship_id),
                 ));
             }
 
diff --git a/src/generator/text/rtl.rs b/src/generator/text/rtl.rs
index 894dab9..cda8f43 100644
--- a/src/generator/text/rtl.rs
+++ b/src/generator/text/rtl.rs
@@ -126,7 +126,7 @@ impl RtlTextProps {
     pub fn to_rpr_xml_attrs(&self) -> String {
         let mut attrs = String::new();
         if let Some(ref lang) = self.language {
-            attrs.push_str(&format!(r#" lang="{lang}""#));
+            attrs.push_str(&format!(r#" lang="{}""#, super::escape_xml(lang)));
         }
         attrs
     }
-- 
2.43.0


From 662841676091f8a4ff2f0850a9c493482241ba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:26 +0000
Subject: [PATCH 09/39] fix: escape names, targets and content types written by
 the part types

---
 src/parts/app_props.rs     | 9 +++++----
 src/parts/content_types.rs | 7 +++++--
 src/parts/relationships.rs | 8 ++++----
 src/parts/slide_layout.rs  | 3 ++-
 src/parts/table.rs         | 2 +-
 src/parts/theme.rs         | 6 +++++-
 6 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/parts/app_props.rs b/src/parts/app_props.rs
index b806ecf..8043ef9 100644
--- a/src/parts/app_props.rs
+++ b/src/parts/app_props.rs
@@ -3,6 +3,7 @@
 //! Represents docProps/app.xml with application-specific metadata.
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
 
 /// Application properties part (docProps/app.xml)
@@ -73,7 +74,7 @@ impl AppPropertiesPart {
         let company_xml = self
             .company
             .as_ref()
-            .map(|c| format!("<Company>{}</Company>", c))
+            .map(|c| format!("<Company>{}</Company>", escape_xml(c)))
             .unwrap_or_default();
 
         format!(
@@ -94,10 +95,10 @@ impl AppPropertiesPart {
   <SharedDoc>{}</SharedDoc>
   <HyperlinksChanged>{}</HyperlinksChanged>
 </Properties>"#,
-            self.application,
-            self.app_version,
+            escape_xml(&self.application),
+            escape_xml(&self.app_version),
             company_xml,
-            self.presentation_format,
+            escape_xml(&self.presentation_format),
             self.slides,
             self.paragraphs,
             self.words,
diff --git a/src/parts/content_types.rs b/src/parts/content_types.rs
index 46517ea..1be437f 100644
--- a/src/parts/content_types.rs
+++ b/src/parts/content_types.rs
@@ -3,6 +3,7 @@
 //! Represents `[Content_Types].xml` which defines MIME types for all parts.
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
 
 /// Default content type mapping (by extension)
@@ -160,7 +161,8 @@ impl ContentTypesPart {
             .map(|d| {
                 format!(
                     r#"<Default Extension="{}" ContentType="{}"/>"#,
-                    d.extension, d.content_type
+                    escape_xml(&d.extension),
+                    escape_xml(&d.content_type)
                 )
             })
             .collect::<Vec<_>>()
@@ -172,7 +174,8 @@ impl ContentTypesPart {
             .map(|o| {
                 format!(
                     r#"<Override PartName="{}" ContentType="{}"/>"#,
-                    o.part_name, o.content_type
+                    escape_xml(&o.part_name),
+                    escape_xml(&o.content_type)
                 )
             })
             .collect::<Vec<_>>()
diff --git a/src/parts/relationships.rs b/src/parts/relationships.rs
index 2b8255e..d1049d8 100644
--- a/src/parts/relationships.rs
+++ b/src/parts/relationships.rs
@@ -2,7 +2,7 @@
 //!
 //! Manages relationships between parts in a PPTX package.
 
-use crate::core::ToXml;
+use crate::core::{escape_xml, ToXml};
 use crate::exc::PptxError;
 use crate::oxml::XmlParser;
 
@@ -86,9 +86,9 @@ impl Relationship {
     pub fn to_xml(&self) -> String {
         format!(
             r#"<Relationship Id="{}" Type="{}" Target="{}"/>"#,
-            self.id,
-            self.rel_type.uri(),
-            self.target
+            escape_xml(&self.id),
+            escape_xml(self.rel_type.uri()),
+            escape_xml(&self.target)
         )
     }
 }
diff --git a/src/parts/slide_layout.rs b/src/parts/slide_layout.rs
index 34054e3..827a129 100644
--- a/src/parts/slide_layout.rs
+++ b/src/parts/slide_layout.rs
@@ -3,6 +3,7 @@
 //! Represents a slide layout template (ppt/slideLayouts/slideLayoutN.xml).
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
 
 /// Slide layout types
@@ -140,7 +141,7 @@ impl SlideLayoutPart {
   </p:clrMapOvr>
 </p:sldLayout>"#,
             self.layout_type.type_value(),
-            self.name
+            escape_xml(&self.name)
         )
     }
 }
diff --git a/src/parts/table.rs b/src/parts/table.rs
index f5e7de2..6ca8e33 100644
--- a/src/parts/table.rs
+++ b/src/parts/table.rs
@@ -415,7 +415,7 @@ impl TableCellPart {
         let font_xml = self
             .font_family
             .as_ref()
-            .map(|f| format!(r#"<a:latin typeface="{}"/>"#, f))
+            .map(|f| format!(r#"<a:latin typeface="{}"/>"#, escape_xml(f)))
             .unwrap_or_default();
 
         // Paragraph alignment
diff --git a/src/parts/theme.rs b/src/parts/theme.rs
index 48a9961..3f4d030 100644
--- a/src/parts/theme.rs
+++ b/src/parts/theme.rs
@@ -3,6 +3,7 @@
 //! Represents a theme (ppt/theme/themeN.xml).
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
 
 /// Theme color
@@ -178,7 +179,10 @@ impl ThemePart {
   <a:objectDefaults/>
   <a:extraClrSchemeLst/>
 </a:theme>"#,
-            self.name, colors_xml, self.major_font.typeface, self.minor_font.typeface
+            escape_xml(&self.name),
+            colors_xml,
+            escape_xml(&self.major_font.typeface),
+            escape_xml(&self.minor_font.typeface)
         )
     }
 }
-- 
2.43.0


From 597eca72e84ede121a04a6cc7d5571a6a4cbfcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:03 +0000
Subject: [PATCH 10/39] fix: section arithmetic overflowed for slide ranges
 near usize::MAX

---
 src/generator/slide_content/sections.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/generator/slide_content/sections.rs b/src/generator/slide_content/sections.rs
index 0acbb0e..c0cdd9b 100644
--- a/src/generator/slide_content/sections.rs
+++ b/src/generator/slide_content/sections.rs
@@ -26,13 +26,13 @@ impl SlideSection {
         if self.slide_count == 0 {
             self.first_slide
         } else {
-            self.first_slide + self.slide_count - 1
+            self.first_slide.saturating_add(self.slide_count - 1)
         }
     }
 
     /// Check if a slide index belongs to this section
     pub fn contains_slide(&self, slide_index: usize) -> bool {
-        slide_index >= self.first_slide && slide_index < self.first_slide + self.slide_count
+        slide_index >= self.first_slide && slide_index - self.first_slide < self.slide_count
     }
 }
 
@@ -132,11 +132,10 @@ impl SectionManager {
                 generate_section_id(&section.name),
             ));
             xml.push_str("<p14:sldIdLst>");
-            for i in 0..section.slide_count {
-                let slide_id = 256 + section.first_slide + i;
-                if section.first_slide + i < total_slides {
-                    xml.push_str(&format!(r#"<p14:sldId id="{}"/>"#, slide_id));
-                }
+            let end = section.first_slide.saturating_add(section.slide_count).min(total_slides);
+            for slide in section.first_slide..end {
+                let slide_id = 256 + slide;
+                xml.push_str(&format!(r#"<p14:sldId id="{}"/>"#, slide_id));
             }
             xml.push_str("</p14:sldIdLst>");
             xml.push_str("</p14:section>");
@@ -152,7 +151,7 @@ fn sections_overlap(a: &SlideSection, b: &SlideSection) -> bool {
     if a.slide_count == 0 || b.slide_count == 0 {
         return false;
     }
-    a.first_slide < b.first_slide + b.slide_count && b.first_slide < a.first_slide + a.slide_count
+    a.first_slide <= b.last_slide() && b.first_slide <= a.last_slide()
 }
 
 /// Generate a deterministic GUID-like ID from a section name
-- 
2.43.0


From a46f268c57bb6f9dcb8be01608d29912985a316b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:04 +0000
Subject: [PATCH 11/39] fix: path separators in a font name broke its part name

---
 src/generator/slide_content/embedded_fonts.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/slide_content/embedded_fonts.rs b/src/generator/slide_content/embedded_fonts.rs
index ef48f16..8403fc5 100644
--- a/src/generator/slide_content/embedded_fonts.rs
+++ b/src/generator/slide_content/embedded_fonts.rs
@@ -128,7 +128,7 @@ impl EmbeddedFont {
     pub fn part_name(&self) -> String {
         format!(
             "ppt/fonts/{}-{}.fntdata",
-            self.typeface.replace(' ', ""),
+            self.typeface.replace([' ', '/', '\\'], ""),
             self.style.xml_element()
         )
     }
@@ -137,7 +137,7 @@ impl EmbeddedFont {
     pub fn rel_target(&self) -> String {
         format!(
             "fonts/{}-{}.fntdata",
-            self.typeface.replace(' ', ""),
+            self.typeface.replace([' ', '/', '\\'], ""),
             self.style.xml_element()
         )
     }
-- 
2.43.0


From 48c97b3abd4c4fece6b9bdbfeadf1306d63d9078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:19 +0000
Subject: [PATCH 12/39] fix: relationship types read back from a URI were
 misclassified

---
 src/parts/relationships.rs | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/parts/relationships.rs b/src/parts/relationships.rs
index d1049d8..4615377 100644
--- a/src/parts/relationships.rs
+++ b/src/parts/relationships.rs
@@ -40,26 +40,19 @@ impl RelationshipType {
 
     /// Parse from URI string
     pub fn from_uri(uri: &str) -> Self {
-        if uri.contains("/slide") && !uri.contains("Layout") && !uri.contains("Master") {
-            RelationshipType::Slide
-        } else if uri.contains("/slideLayout") {
-            RelationshipType::SlideLayout
-        } else if uri.contains("/slideMaster") {
-            RelationshipType::SlideMaster
-        } else if uri.contains("/theme") {
-            RelationshipType::Theme
-        } else if uri.contains("/image") {
-            RelationshipType::Image
-        } else if uri.contains("/chart") {
-            RelationshipType::Chart
-        } else if uri.contains("/officeDocument") {
-            RelationshipType::OfficeDocument
-        } else if uri.contains("core-properties") {
-            RelationshipType::CoreProperties
-        } else if uri.contains("extended-properties") {
-            RelationshipType::ExtendedProperties
-        } else {
-            RelationshipType::Custom(uri.to_string())
+        // The last path segment names the kind; a substring search would also match
+        // longer names ("chartUserShapes") and the namespace itself (".../officeDocument/...").
+        match uri.rsplit('/').next().unwrap_or(uri) {
+            "slide" => RelationshipType::Slide,
+            "slideLayout" => RelationshipType::SlideLayout,
+            "slideMaster" => RelationshipType::SlideMaster,
+            "theme" => RelationshipType::Theme,
+            "image" => RelationshipType::Image,
+            "chart" => RelationshipType::Chart,
+            "officeDocument" => RelationshipType::OfficeDocument,
+            "core-properties" => RelationshipType::CoreProperties,
+            "extended-properties" => RelationshipType::ExtendedProperties,
+            _ => RelationshipType::Custom(uri.to_string()),
         }
     }
 }
-- 
2.43.0


From 87e47b5f08420a13193d9ce207406c31152cf939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:19 +0000
Subject: [PATCH 13/39] fix: issued relationship ids could overflow or collide
 near u32::MAX

---
 src/parts/relationships.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parts/relationships.rs b/src/parts/relationships.rs
index 4615377..5ed8337 100644
--- a/src/parts/relationships.rs
+++ b/src/parts/relationships.rs
@@ -110,8 +110,13 @@ impl Relationships {
 
     /// Add a relationship and return its ID
     pub fn add(&mut self, rel_type: RelationshipType, target: &str) -> String {
-        let id = format!("rId{}", self.next_id);
-        self.next_id += 1;
+        // ids given by the caller can occupy any number, and the counter can wrap around
+        let mut id = format!("rId{}", self.next_id);
+        while self.get(&id).is_some() {
+            self.next_id = self.next_id.wrapping_add(1);
+            id = format!("rId{}", self.next_id);
+        }
+        self.next_id = self.next_id.wrapping_add(1);
         self.relationships
             .push(Relationship::new(&id, rel_type, target));
         id
@@ -124,7 +129,7 @@ impl Relationships {
         // Update next_id if needed
         if let Some(num) = id.strip_prefix("rId").and_then(|s| s.parse::<u32>().ok())
             && num >= self.next_id {
-                self.next_id = num + 1;
+                self.next_id = num.wrapping_add(1);
             }
     }
 
-- 
2.43.0


From 2abbcbe231ad5c1e2d4e9ead1e921d69a93ecc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:19 +0000
Subject: [PATCH 14/39] fix: a slide added to a parsed presentation could get
 an id already in use

---
 src/parts/presentation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parts/presentation.rs b/src/parts/presentation.rs
index e571887..de3fbfe 100644
--- a/src/parts/presentation.rs
+++ b/src/parts/presentation.rs
@@ -50,7 +50,11 @@ impl PresentationPart {
 
     /// Add a slide reference
     pub fn add_slide(&mut self, r_id: &str) -> u32 {
-        let id = 256 + self.slide_refs.len() as u32 + 1;
+        let mut id = 256 + self.slide_refs.len() as u32 + 1;
+        // slides read from a file can already use this id
+        while self.slide_refs.iter().any(|s| s.id == id) {
+            id += 1;
+        }
         self.slide_refs.push(SlideRef {
             id,
             r_id: r_id.to_string(),
-- 
2.43.0


From 7d646c18dfeba927206778340082093afb34cdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:19 +0000
Subject: [PATCH 15/39] fix: add_comment could reuse the index of an added
 comment

---
 src/generator/slide_content/comments.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/generator/slide_content/comments.rs b/src/generator/slide_content/comments.rs
index 7eef008..02cfbda 100644
--- a/src/generator/slide_content/comments.rs
+++ b/src/generator/slide_content/comments.rs
@@ -178,7 +178,11 @@ impl SlideComments {
 
     /// Add a comment with auto-incrementing index
     pub fn add_comment(&mut self, author_id: u32, text: &str, x: u32, y: u32) {
-        let idx = self.comments.len() as u32 + 1;
+        let mut idx = self.comments.len() as u32 + 1;
+        // comments added with an index of their own can already use this one
+        while self.comments.iter().any(|c| c.index == idx) {
+            idx += 1;
+        }
         self.comments.push(
             Comment::new(author_id, text)
                 .position(x, y)
-- 
2.43.0


From 22e79296f90fded5db52367bf7888c0e1ddc4f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:52 +0000
Subject: [PATCH 16/39] fix: presentation relationships mixed automatic and
 given ids into duplicates

---
 src/parts/presentation.rs | 61 +++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/src/parts/presentation.rs b/src/parts/presentation.rs
index de3fbfe..43e30c3 100644
--- a/src/parts/presentation.rs
+++ b/src/parts/presentation.rs
@@ -78,30 +78,55 @@ impl PresentationPart {
         self.slide_height = height;
     }
 
+    /// Relationship id of the slide master: the given one, or the first free number
+    fn master_r_id(&self) -> String {
+        match &self.slide_master_r_id {
+            Some(r_id) => r_id.clone(),
+            None => self.free_r_id(""),
+        }
+    }
+
+    /// Relationship id of the theme: the given one, or the first free number
+    fn theme_r_id(&self) -> String {
+        match &self.theme_r_id {
+            Some(r_id) => r_id.clone(),
+            None => self.free_r_id(&self.master_r_id()),
+        }
+    }
+
+    /// First `rIdN` that no explicit relationship (and not `taken`) uses
+    fn free_r_id(&self, taken: &str) -> String {
+        let mut num = 1usize;
+        loop {
+            let id = format!("rId{}", num);
+            let used = id == taken
+                || self.slide_master_r_id.as_deref() == Some(id.as_str())
+                || self.theme_r_id.as_deref() == Some(id.as_str())
+                || self.slide_refs.iter().any(|s| s.r_id == id);
+            if !used {
+                return id;
+            }
+            num += 1;
+        }
+    }
+
     /// Create default relationships for presentation
     pub fn create_relationships(&self) -> Relationships {
         let mut rels = Relationships::new();
 
         // Add slide master
-        if let Some(ref r_id) = self.slide_master_r_id {
-            rels.add_with_id(
-                r_id,
-                RelationshipType::SlideMaster,
-                "slideMasters/slideMaster1.xml",
-            );
-        } else {
-            rels.add(
-                RelationshipType::SlideMaster,
-                "slideMasters/slideMaster1.xml",
-            );
-        }
+        rels.add_with_id(
+            &self.master_r_id(),
+            RelationshipType::SlideMaster,
+            "slideMasters/slideMaster1.xml",
+        );
 
         // Add theme
-        if let Some(ref r_id) = self.theme_r_id {
-            rels.add_with_id(r_id, RelationshipType::Theme, "theme/theme1.xml");
-        } else {
-            rels.add(RelationshipType::Theme, "theme/theme1.xml");
-        }
+        rels.add_with_id(
+            &self.theme_r_id(),
+            RelationshipType::Theme,
+            "theme/theme1.xml",
+        );
 
         // Add slides
         for (i, slide_ref) in self.slide_refs.iter().enumerate() {
@@ -144,7 +169,7 @@ impl Part for PresentationPart {
             ));
         }
 
-        let master_r_id = self.slide_master_r_id.as_deref().unwrap_or("rId1");
+        let master_r_id = self.master_r_id();
 
         let xml = format!(
             r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-- 
2.43.0


From b8fcaea97f2b9671c0f7a418eb215bbd904d199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:30 +0000
Subject: [PATCH 17/39] fix: sections sharing a name were written with the same
 id

---
 src/generator/slide_content/sections.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/generator/slide_content/sections.rs b/src/generator/slide_content/sections.rs
index c0cdd9b..7a65687 100644
--- a/src/generator/slide_content/sections.rs
+++ b/src/generator/slide_content/sections.rs
@@ -115,6 +115,17 @@ impl SectionManager {
         }
     }
 
+    /// Id of the section at `index`: sections may share a name, but not an id
+    fn section_id(&self, index: usize) -> String {
+        let name = &self.sections[index].name;
+        let same = self.sections[..index].iter().filter(|s| &s.name == name).count();
+        if same == 0 {
+            generate_section_id(name)
+        } else {
+            generate_section_id(&format!("{}\u{0}{}", name, same))
+        }
+    }
+
     /// Generate OOXML extension XML for sections (used in presentation.xml `<p:extLst>`)
     pub fn to_xml(&self, total_slides: usize) -> String {
         if self.sections.is_empty() {
@@ -125,11 +136,11 @@ impl SectionManager {
             r#"<p:extLst><p:ext uri="{521415D9-36F7-43E2-AB2F-B90AF26B5E84}"><p14:sectionLst xmlns:p14="http://schemas.microsoft.com/office/powerpoint/2010/main">"#,
         );
 
-        for section in &self.sections {
+        for (i, section) in self.sections.iter().enumerate() {
             xml.push_str(&format!(
                 r#"<p14:section name="{}" id="{{{}}}">"#,
                 xml_escape(&section.name),
-                generate_section_id(&section.name),
+                self.section_id(i),
             ));
             xml.push_str("<p14:sldIdLst>");
             let end = section.first_slide.saturating_add(section.slide_count).min(total_slides);
-- 
2.43.0


From 79fae3afdc840ec4eae318b62b826b72326c6b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:34 +0000
Subject: [PATCH 18/39] fix: automatic object ids repeated ids fixed by shapes
 on the same slide

---
 src/generator/slide_xml/content.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index da8ce7e..f9bddc2 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -1,5 +1,6 @@
 //! Additional content rendering (shapes, images, code blocks, connectors)
 
+use crate::generator::shapes::Shape;
 use crate::generator::shapes_xml::generate_shape_xml;
 use crate::generator::slide_content::SlideContent;
 
@@ -21,9 +22,13 @@ pub fn render_additional_content(
     }
 
     // Render shapes - use shape's fixed ID if set, otherwise auto-assign
+    let mut last_id = 0;
     for (i, shape) in content.shapes.iter().enumerate() {
         xml.push('\n');
-        let shape_id = shape.id.unwrap_or((i + 10) as u32);
+        let shape_id = match shape.id {
+            Some(id) => id,
+            None => issue_id(&content.shapes, &mut last_id, i + 10) as u32,
+        };
         xml.push_str(&generate_shape_xml(shape, shape_id));
     }
 
@@ -38,7 +43,7 @@ pub fn render_additional_content(
         let rel_id = image_rel_start + i;
         xml.push_str(&crate::generator::images_xml::generate_image_xml(
             image,
-            image_start_id + i,
+            issue_id(&content.shapes, &mut last_id, image_start_id + i),
             rel_id,
         ));
     }
@@ -47,7 +52,8 @@ pub fn render_additional_content(
     let code_start_id = 30 + content.shapes.len() + content.images.len();
     for (i, code_block) in content.code_blocks.iter().enumerate() {
         xml.push('\n');
-        xml.push_str(&generate_code_block(code_start_id + i, code_block));
+        let id = issue_id(&content.shapes, &mut last_id, code_start_id + i);
+        xml.push_str(&generate_code_block(id, code_block));
     }
 
     // Render connectors
@@ -55,7 +61,7 @@ pub fn render_additional_content(
         50 + content.shapes.len() + content.images.len() + content.code_blocks.len();
     for (i, connector) in content.connectors.iter().enumerate() {
         xml.push('\n');
-        let id = connector_start_id + i;
+        let id = issue_id(&content.shapes, &mut last_id, connector_start_id + i);
         xml.push_str(&crate::generator::connectors::generate_connector_xml(
             connector, id,
         ));
@@ -71,10 +77,11 @@ pub fn render_additional_content(
         if i < chart_rids.len() {
             xml.push('\n');
             let r_id = &chart_rids[i];
+            let id = issue_id(&content.shapes, &mut last_id, chart_start_id + i);
             xml.push_str(&crate::generator::charts::generate_chart_ref_xml(
                 chart,
                 r_id,
-                chart_start_id + i,
+                id,
             ));
         }
     }
@@ -91,6 +98,16 @@ pub fn render_additional_content(
 }
 
 /// Generate code block XML with syntax highlighting
+/// The first id from `wanted` on that was neither issued before nor fixed by a shape
+fn issue_id(shapes: &[Shape], last_id: &mut usize, wanted: usize) -> usize {
+    let mut id = wanted.max(*last_id + 1);
+    while shapes.iter().any(|s| s.id.is_some_and(|fixed| fixed as usize == id)) {
+        id += 1;
+    }
+    *last_id = id;
+    id
+}
+
 fn generate_code_block(
     id: usize,
     code_block: &crate::generator::slide_content::CodeBlock,
-- 
2.43.0


From 8219a6e98b2d9eaedd434ea37ef20bcd2861a051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:13 +0000
Subject: [PATCH 19/39] fix: colour notations with non-ASCII or signed digits
 no longer panic or pass as colours

---
 src/elements/color.rs      | 2 +-
 src/export/slide_render.rs | 2 +-
 src/helpers/colors.rs      | 4 +++-
 src/helpers/mod.rs         | 2 +-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/elements/color.rs b/src/elements/color.rs
index 3216b85..04815f0 100644
--- a/src/elements/color.rs
+++ b/src/elements/color.rs
@@ -21,7 +21,7 @@ impl RgbColor {
     /// Parse from hex string (e.g., "FF0000" or "#FF0000")
     pub fn from_hex(hex: &str) -> Option<Self> {
         let hex = hex.trim_start_matches('#');
-        if hex.len() != 6 {
+        if hex.len() != 6 || !hex.bytes().all(|b| b.is_ascii_hexdigit()) {
             return None;
         }
         let r = u8::from_str_radix(&hex[0..2], 16).ok()?;
diff --git a/src/export/slide_render.rs b/src/export/slide_render.rs
index 9e4bb57..234f13a 100644
--- a/src/export/slide_render.rs
+++ b/src/export/slide_render.rs
@@ -63,7 +63,7 @@ fn font_name(bold: bool, italic: bool) -> &'static str {
 
 fn hex_to_rgb(hex: &str) -> (f32, f32, f32) {
     let h = hex.trim_start_matches('#');
-    if h.len() == 6 {
+    if h.len() == 6 && h.is_ascii() {
         let r = u8::from_str_radix(&h[0..2], 16).unwrap_or(0);
         let g = u8::from_str_radix(&h[2..4], 16).unwrap_or(0);
         let b = u8::from_str_radix(&h[4..6], 16).unwrap_or(0);
diff --git a/src/helpers/colors.rs b/src/helpers/colors.rs
index 95c0989..e8842da 100644
--- a/src/helpers/colors.rs
+++ b/src/helpers/colors.rs
@@ -31,7 +31,9 @@ impl ColorValue {
     /// Create a color from a hex string (with or without #)
     pub fn from_hex(hex: &str) -> Self {
         let hex = hex.trim_start_matches('#');
-        if hex.len() == 6 {
+        if !hex.is_ascii() {
+            Self::rgb(0, 0, 0)
+        } else if hex.len() == 6 {
             let r = u8::from_str_radix(&hex[0..2], 16).unwrap_or(0);
             let g = u8::from_str_radix(&hex[2..4], 16).unwrap_or(0);
             let b = u8::from_str_radix(&hex[4..6], 16).unwrap_or(0);
diff --git a/src/helpers/mod.rs b/src/helpers/mod.rs
index 50a7bff..4c6babf 100644
--- a/src/helpers/mod.rs
+++ b/src/helpers/mod.rs
@@ -229,7 +229,7 @@ pub fn rgb(r: u8, g: u8, b: u8) -> Color {
 /// ```
 pub fn hex(color: &str) -> Color {
     let color = color.trim_start_matches('#');
-    if color.len() == 6 {
+    if color.len() == 6 && color.is_ascii() {
         let r = u8::from_str_radix(&color[0..2], 16).unwrap_or(0);
         let g = u8::from_str_radix(&color[2..4], 16).unwrap_or(0);
         let b = u8::from_str_radix(&color[4..6], 16).unwrap_or(0);
-- 
2.43.0


From e9b1f1e6a2f5f8ee2fd5c55ed6b68adeb868966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:34 +0000
Subject: [PATCH 20/39] fix: filling a shape that has text no longer panics on
 a non-ASCII colour

---
 src/generator/shapes_xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/shapes_xml.rs b/src/generator/shapes_xml.rs
index 34ecae7..520603f 100644
--- a/src/generator/shapes_xml.rs
+++ b/src/generator/shapes_xml.rs
@@ -313,7 +313,7 @@ fn estimate_wrapped_lines(_text: &str, lines: &[&str]) -> (f64, f64) {
 /// Calculate if a color is dark (needs white text) or light (needs black text)
 fn is_dark_color(hex_color: &str) -> bool {
     let hex = hex_color.trim_start_matches('#');
-    if hex.len() < 6 {
+    if hex.len() < 6 || !hex.is_ascii() {
         return false; // Default to light
     }
     
-- 
2.43.0


From 083932f481a973882f89e03ced362fd1487285a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:34 +0000
Subject: [PATCH 21/39] fix: rotations and gradient angles beyond the integer
 range of 60000ths no longer overflow

---
 src/generator/gradients.rs  | 2 +-
 src/generator/shapes.rs     | 2 +-
 src/generator/shapes_xml.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generator/gradients.rs b/src/generator/gradients.rs
index ff77f5f..a41c4de 100644
--- a/src/generator/gradients.rs
+++ b/src/generator/gradients.rs
@@ -50,7 +50,7 @@ impl GradientDirection {
             GradientDirection::Vertical => 5400000,
             GradientDirection::DiagonalDown => 2700000,
             GradientDirection::DiagonalUp => 18900000,
-            GradientDirection::Custom(deg) => deg * 60000,
+            GradientDirection::Custom(deg) => (deg % 360) * 60000,
         }
     }
 }
diff --git a/src/generator/shapes.rs b/src/generator/shapes.rs
index 01c98d9..9be7534 100644
--- a/src/generator/shapes.rs
+++ b/src/generator/shapes.rs
@@ -447,7 +447,7 @@ impl GradientDirection {
             GradientDirection::Vertical => 5400000,      // 90 * 60000
             GradientDirection::DiagonalDown => 2700000,  // 45 * 60000
             GradientDirection::DiagonalUp => 18900000,   // 315 * 60000
-            GradientDirection::Angle(deg) => deg * 60000,
+            GradientDirection::Angle(deg) => (deg % 360) * 60000,
         }
     }
 }
diff --git a/src/generator/shapes_xml.rs b/src/generator/shapes_xml.rs
index 520603f..3b3a634 100644
--- a/src/generator/shapes_xml.rs
+++ b/src/generator/shapes_xml.rs
@@ -19,7 +19,7 @@ pub fn generate_shape_xml(shape: &Shape, shape_id: u32) -> String {
     let text_xml = generate_text_xml_with_autofit(&shape.text, shape.width, shape.height, fill_color);
     
     let rot_attr = if let Some(rot) = shape.rotation {
-        format!(r#" rot="{}""#, rot * 60000)
+        format!(r#" rot="{}""#, (rot % 360) * 60000)
     } else {
         String::new()
     };
-- 
2.43.0


From 65e15b7a1b1e8564d2cbf2471f468352020966a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:47 +0000
Subject: [PATCH 22/39] fix: image format detection and pixel sizes do not
 panic on unusual headers

---
 src/generator/images.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index 1059aca..13626e8 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -117,8 +117,8 @@ impl Image {
             .ok_or_else(|| "Failed to detect image dimensions (unsupported format)".to_string())?;
             
         // Convert pixels to EMU (assuming 96 DPI): 1 pixel = 9525 EMU
-        let w_emu = w * 9525;
-        let h_emu = h * 9525;
+        let w_emu = w.saturating_mul(9525);
+        let h_emu = h.saturating_mul(9525);
         
         Ok(Image {
             filename,
@@ -482,7 +482,7 @@ impl ImageBuilder {
                 "PNG"
             } else if data.len() >= 2 && &data[0..2] == b"\xFF\xD8" {
                 "JPEG"
-            } else if data.len() >= 6 && &data[0..6] == b"GIF89a" || &data[0..6] == b"GIF87a" {
+            } else if data.len() >= 6 && (&data[0..6] == b"GIF89a" || &data[0..6] == b"GIF87a") {
                 "GIF"
             } else {
                 "PNG" // default
-- 
2.43.0


From c125e42e788a06064f226259381bb9b97ed3f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:47 +0000
Subject: [PATCH 23/39] fix: read the size of top-down bitmaps and of JPEG
 files with fill bytes

---
 src/generator/images.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index 13626e8..5b853e4 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -745,7 +745,8 @@ fn read_image_dimensions(data: &[u8]) -> Option<(u32, u32, String)> {
     // BMP: "BM", width/height as little-endian u32 at offset 18/22
     if data.starts_with(b"BM") && data.len() >= 26 {
         let w = u32::from_le_bytes([data[18], data[19], data[20], data[21]]);
-        let h = u32::from_le_bytes([data[22], data[23], data[24], data[25]]);
+        // A negative height marks a top-down bitmap
+        let h = i32::from_le_bytes([data[22], data[23], data[24], data[25]]).unsigned_abs();
         return Some((w, h, "BMP".into()));
     }
     // WebP: "RIFF....WEBP", VP8 chunk has dimensions
@@ -780,6 +781,11 @@ fn read_jpeg_dimensions(data: &[u8]) -> Option<(u32, u32, String)> {
             continue;
         }
         let marker = data[i + 1];
+        // Any number of fill bytes may precede a marker
+        if marker == 0xFF {
+            i += 1;
+            continue;
+        }
         i += 2;
         // SOF0 (0xC0) or SOF2 (0xC2): height at +3, width at +5 (big-endian u16)
         if (marker == 0xC0 || marker == 0xC2) && i + 7 < data.len() {
-- 
2.43.0


From 71a931b4ffc986ec4403f321df096928072ce9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:47 +0000
Subject: [PATCH 24/39] fix: refuse malformed base64 image data instead of
 decoding it to other bytes

---
 src/generator/images.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index 5b853e4..a2efc94 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -345,6 +345,11 @@ fn base64_decode(input: &str) -> Result<Vec<u8>, std::io::Error> {
             if i + j >= bytes.len() || bytes[i + j] == b'=' {
                 buf[j] = 0;
                 pad += 1;
+            } else if pad > 0 {
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::InvalidData,
+                    "Base64 data after padding",
+                ));
             } else if bytes[i + j] < 128 && DECODE_TABLE[bytes[i + j] as usize] >= 0 {
                 buf[j] = DECODE_TABLE[bytes[i + j] as usize] as u8;
             } else {
@@ -355,6 +360,13 @@ fn base64_decode(input: &str) -> Result<Vec<u8>, std::io::Error> {
             }
         }
         
+        // A group has at least two characters, and only the last one is padded
+        if pad > 2 || (pad > 0 && i + 4 < bytes.len()) {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "Misplaced base64 padding",
+            ));
+        }
         output.push((buf[0] << 2) | (buf[1] >> 4));
         if pad < 2 {
             output.push((buf[1] << 4) | (buf[2] >> 2));
-- 
2.43.0


From 493ad46b341e684c384d4533c09f2f4e642f1f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:57 +0000
Subject: [PATCH 25/39] fix: read slides in the order of the slide list

---
 src/oxml/presentation.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/oxml/presentation.rs b/src/oxml/presentation.rs
index 26a784d..35950cf 100644
--- a/src/oxml/presentation.rs
+++ b/src/oxml/presentation.rs
@@ -173,12 +173,16 @@ impl PresentationReader {
                         }
                 }
 
-                // Sort by relationship ID to maintain slide order
+                // Sort by relationship ID, then by position in the slide list, which decides
                 slide_rels.sort_by(|a, b| {
                     let num_a: u32 = a.0.trim_start_matches("rId").parse().unwrap_or(0);
                     let num_b: u32 = b.0.trim_start_matches("rId").parse().unwrap_or(0);
                     num_a.cmp(&num_b)
                 });
+                let order = self.slide_list();
+                slide_rels.sort_by_key(|(id, _)| {
+                    order.iter().position(|x| x == id).unwrap_or(order.len())
+                });
 
                 self.slide_paths = slide_rels.into_iter().map(|(_, path)| path).collect();
             }
@@ -194,13 +198,31 @@ impl PresentationReader {
                 })
                 .map(|s| s.to_string())
                 .collect();
-            slides.sort();
+            slides.sort_by_key(|p| (p.len(), p.clone()));
             self.slide_paths = slides;
         }
 
         self.info.slide_count = self.slide_paths.len();
         Ok(())
     }
+
+    /// Relationship IDs of the slides, in the order of presentation.xml
+    fn slide_list(&self) -> Vec<String> {
+        let Some(xml) = self.package.get_part("ppt/presentation.xml") else {
+            return Vec::new();
+        };
+        let Ok(root) = XmlParser::parse_str(&String::from_utf8_lossy(xml)) else {
+            return Vec::new();
+        };
+        match root.find("sldIdLst") {
+            Some(list) => list
+                .find_all("sldId")
+                .iter()
+                .filter_map(|e| e.attr("r:id").map(|s| s.to_string()))
+                .collect(),
+            None => Vec::new(),
+        }
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6bff926676b4857e1d03c505839f012e241ccc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:59 +0000
Subject: [PATCH 26/39] fix: read every run of a table cell, and u="none" as
 not underlined

---
 src/oxml/slide.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/oxml/slide.rs b/src/oxml/slide.rs
index b139c0c..4316a7a 100644
--- a/src/oxml/slide.rs
+++ b/src/oxml/slide.rs
@@ -277,7 +277,7 @@ impl SlideParser {
                         .attr("i")
                         .map(|v| v == "1" || v == "true")
                         .unwrap_or(false);
-                    run.underline = rpr.attr("u").is_some();
+                    run.underline = rpr.attr("u").is_some_and(|v| v != "none");
                     run.font_size = rpr.attr("sz").and_then(|v| v.parse().ok());
 
                     // Get color from solidFill/srgbClr
@@ -347,8 +347,14 @@ impl SlideParser {
             let mut row = Vec::new();
             for tc in tr.find_all("tc") {
                 let text = tc
-                    .find_descendant("t")
-                    .map(|t| t.text_content())
+                    .find("txBody")
+                    .map(|body| {
+                        Self::parse_text_body(body)
+                            .iter()
+                            .map(|p| p.text())
+                            .collect::<Vec<_>>()
+                            .join("\n")
+                    })
                     .unwrap_or_default();
 
                 let row_span = tc.attr("rowSpan").and_then(|v| v.parse().ok()).unwrap_or(1);
-- 
2.43.0


From 0323e970e958b3087776ae08b883b58b1ee7ee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:18 +0000
Subject: [PATCH 27/39] fix: a typed placeholder is read as title or body by
 its type, not its name

---
 src/oxml/slide.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/oxml/slide.rs b/src/oxml/slide.rs
index 4316a7a..852296f 100644
--- a/src/oxml/slide.rs
+++ b/src/oxml/slide.rs
@@ -302,9 +302,9 @@ impl SlideParser {
         // Check placeholder type first
         if let Some(nv_pr) = sp.find_descendant("nvPr")
             && let Some(ph) = nv_pr.find("ph") {
-                let ph_type = ph.attr("type").unwrap_or("");
-                if ph_type == "title" || ph_type == "ctrTitle" {
-                    return true;
+                // The type of a placeholder decides, whatever its name ("Subtitle 2")
+                if let Some(ph_type) = ph.attr("type") {
+                    return ph_type == "title" || ph_type == "ctrTitle";
                 }
             }
         // Also check shape name for textbox-based titles
@@ -323,9 +323,7 @@ impl SlideParser {
         if let Some(nv_pr) = sp.find_descendant("nvPr")
             && let Some(ph) = nv_pr.find("ph") {
                 let ph_type = ph.attr("type").unwrap_or("body");
-                if ph_type == "body" || ph_type.is_empty() {
-                    return true;
-                }
+                return ph_type == "body" || ph_type.is_empty();
             }
         // Also check shape name for textbox-based content
         if let Some(cnv_pr) = sp.find_descendant("cNvPr")
-- 
2.43.0


From 41a3add2076245e958072fecdf5202f69df88deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:55 +0000
Subject: [PATCH 28/39] fix: keep texts that consist of spaces when reading XML

---
 src/oxml/xmlchemy.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oxml/xmlchemy.rs b/src/oxml/xmlchemy.rs
index 0404cb8..486ea1a 100644
--- a/src/oxml/xmlchemy.rs
+++ b/src/oxml/xmlchemy.rs
@@ -182,6 +182,12 @@ impl XmlParser {
                         current.text.push_str(&text);
                     }
                 }
+                // A text of spaces only is text too
+                Ok(XmlEvent::Whitespace(text)) => {
+                    if let Some(current) = stack.last_mut() {
+                        current.text.push_str(&text);
+                    }
+                }
                 Ok(XmlEvent::CData(text)) => {
                     if let Some(current) = stack.last_mut() {
                         current.text.push_str(&text);
-- 
2.43.0


From 33788b734751720fed08affabddf1afedee2ef4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:52 +0000
Subject: [PATCH 29/39] fix: editing slides keeps the rest of the presentation
 and every reference

---
 src/generator/slide_xml/mod.rs |   2 +-
 src/oxml/editor.rs             | 513 +++++++++++++++++----------------
 src/oxml/presentation.rs       |   4 +
 3 files changed, 272 insertions(+), 247 deletions(-)

diff --git a/src/generator/slide_xml/mod.rs b/src/generator/slide_xml/mod.rs
index 9d56c62..ab84d65 100644
--- a/src/generator/slide_xml/mod.rs
+++ b/src/generator/slide_xml/mod.rs
@@ -15,7 +15,7 @@ mod content;
 use super::slide_content::{SlideContent, SlideLayout};
 use crate::core::escape_xml;
 
-pub use common::create_slide_rels_xml;
+pub use common::{create_slide_rels_xml, create_slide_rels_xml_for_layout};
 
 /// Create simple slide XML
 pub fn create_slide_xml(slide_num: usize, title: &str) -> String {
diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index 105d7c5..1945338 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -6,13 +6,11 @@
 //! - Remove slides
 //! - Modify presentation properties
 
+use super::presentation::PresentationReader;
 use super::slide::{ParsedSlide, SlideParser};
 use crate::exc::{messages, PptxError};
 use crate::generator::slide_content::SlideContent;
-use crate::generator::package_xml::{
-    create_presentation_rels_xml_full, slide_id_value, slide_rel_id,
-};
-use crate::generator::slide_xml::{create_slide_rels_xml, create_slide_xml_with_content};
+use crate::generator::slide_xml::{create_slide_rels_xml_for_layout, create_slide_xml_with_content};
 use crate::opc::Package;
 
 /// Presentation editor for modifying PPTX files
@@ -24,13 +22,13 @@ pub struct PresentationEditor {
 impl PresentationEditor {
     /// Open a PPTX file for editing
     pub fn open(path: &str) -> Result<Self, PptxError> {
-        let package = Package::open(path)?;
-        let slide_count = Self::count_slides(&package);
-
-        Ok(PresentationEditor {
+        let (package, slide_paths) = PresentationReader::open(path)?.into_parts();
+        let mut editor = PresentationEditor {
             package,
-            slide_count,
-        })
+            slide_count: slide_paths.len(),
+        };
+        editor.number_slides(&slide_paths);
+        Ok(editor)
     }
 
     /// Create a new presentation for editing
@@ -65,7 +63,7 @@ impl PresentationEditor {
 
         // Generate slide XML
         let slide_xml = create_slide_xml_with_content(new_index, &content, &[], None);
-        let slide_rels_xml = create_slide_rels_xml();
+        let slide_rels_xml = create_slide_rels_xml_for_layout(content.layout.layout_number());
 
         // Add slide file
         let slide_path = format!("ppt/slides/slide{new_index}.xml");
@@ -76,16 +74,9 @@ impl PresentationEditor {
         self.package
             .add_part(rels_path, slide_rels_xml.into_bytes());
 
-        // Update presentation.xml to include new slide
-        self.update_presentation_xml(new_index)?;
-
-        // Update presentation.xml.rels
-        self.update_presentation_rels(new_index)?;
-
-        // Update [Content_Types].xml
-        self.update_content_types(new_index)?;
-
-        self.slide_count = new_index;
+        let mut list = self.slide_list();
+        list.push(self.new_list_entry(&list));
+        self.set_slide_list(&list);
         Ok(new_index - 1) // Return 0-based index
     }
 
@@ -110,6 +101,14 @@ impl PresentationEditor {
         }
 
         let slide_num = index + 1;
+        let mut list = self.slide_list();
+        list.remove(index);
+
+        // Remove the notes page, and unlink what leads to the slide
+        self.remove_notes(slide_num);
+        self.retarget(&format!("slide{slide_num}.xml"), |_| {
+            "Target=\"NULL\" TargetMode=\"External\"".to_string()
+        });
 
         // Remove slide file
         let slide_path = format!("ppt/slides/slide{slide_num}.xml");
@@ -124,12 +123,8 @@ impl PresentationEditor {
             self.renumber_slide(i, i - 1)?;
         }
 
-        self.slide_count -= 1;
-
         // Update presentation files
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
+        self.set_slide_list(&list);
 
         Ok(())
     }
@@ -153,28 +148,28 @@ impl PresentationEditor {
             .get_part(&slide_path)
             .ok_or_else(|| PptxError::NotFound(messages::slide_not_found(index)))?
             .to_vec();
-        let rels_data = self
-            .package
-            .get_part(&rels_path)
-            .unwrap_or_default()
-            .to_vec();
+        let mut list = self.slide_list();
 
         // Shift slides after the original to make room for the duplicate.
         for i in ((new_num + 1)..=(self.slide_count + 1)).rev() {
             self.renumber_slide(i - 1, i)?;
         }
 
+        let rels_data = self
+            .package
+            .get_part(&rels_path)
+            .unwrap_or_default()
+            .to_vec();
+
         // Insert duplicate at the newly vacated position.
         self.package
             .add_part(format!("ppt/slides/slide{new_num}.xml"), slide_data);
         self.package
             .add_part(format!("ppt/slides/_rels/slide{new_num}.xml.rels"), rels_data);
+        self.copy_notes(slide_num, new_num);
 
-        self.slide_count += 1;
-
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
+        list.insert(new_index, self.new_list_entry(&list));
+        self.set_slide_list(&list);
 
         Ok(new_index)
     }
@@ -187,6 +182,8 @@ impl PresentationEditor {
 
         let new_num = index + 1;
 
+        let mut list = self.slide_list();
+
         // Shift slides at and after the insertion point upward.
         for i in ((new_num + 1)..=(self.slide_count + 1)).rev() {
             self.renumber_slide(i - 1, i)?;
@@ -194,7 +191,7 @@ impl PresentationEditor {
 
         // Generate and insert the new slide.
         let slide_xml = create_slide_xml_with_content(new_num, &content, &[], None);
-        let slide_rels_xml = create_slide_rels_xml();
+        let slide_rels_xml = create_slide_rels_xml_for_layout(content.layout.layout_number());
 
         self.package
             .add_part(format!("ppt/slides/slide{new_num}.xml"), slide_xml.into_bytes());
@@ -203,11 +200,8 @@ impl PresentationEditor {
             slide_rels_xml.into_bytes(),
         );
 
-        self.slide_count += 1;
-
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
+        list.insert(index, self.new_list_entry(&list));
+        self.set_slide_list(&list);
 
         Ok(index)
     }
@@ -227,18 +221,12 @@ impl PresentationEditor {
         let from_num = from_index + 1;
         let to_num = to_index + 1;
 
-        // Extract the slide being moved.
-        let temp_slide_path = "ppt/slides/_temp_slide.xml".to_string();
-        let temp_rels_path = "ppt/slides/_rels/_temp_slide.xml.rels".to_string();
+        let mut list = self.slide_list();
+        let entry = list.remove(from_index);
+        list.insert(to_index, entry);
 
-        if let Some(data) = self.package.remove_part(&format!("ppt/slides/slide{from_num}.xml")) {
-            self.package.add_part(temp_slide_path.clone(), data);
-        }
-        if let Some(data) =
-            self.package.remove_part(&format!("ppt/slides/_rels/slide{from_num}.xml.rels"))
-        {
-            self.package.add_part(temp_rels_path.clone(), data);
-        }
+        // Extract the slide being moved.
+        self.rename_slide(&format!("slide{from_num}.xml"), "_temp_slide.xml");
 
         if from_index < to_index {
             // Shift intermediate slides left.
@@ -253,23 +241,13 @@ impl PresentationEditor {
         }
 
         // Place the moved slide at the target position.
-        if let Some(data) = self.package.remove_part(&temp_slide_path) {
-            self.package
-                .add_part(format!("ppt/slides/slide{to_num}.xml"), data);
-        }
-        if let Some(data) = self.package.remove_part(&temp_rels_path) {
-            self.package
-                .add_part(format!("ppt/slides/_rels/slide{to_num}.xml.rels"), data);
-        }
+        self.rename_slide("_temp_slide.xml", &format!("slide{to_num}.xml"));
 
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
+        self.set_slide_list(&list);
 
         Ok(())
     }
 
-    /// Save the modified presentation
     pub fn save(&self, path: &str) -> Result<(), PptxError> {
         self.package.save(path)?;
         Ok(())
@@ -287,112 +265,214 @@ impl PresentationEditor {
 
     // Helper methods
 
-    fn count_slides(package: &Package) -> usize {
-        package
-            .part_paths()
-            .iter()
-            .filter(|p| {
-                p.starts_with("ppt/slides/slide") && p.ends_with(".xml") && !p.contains("_rels")
-            })
-            .count()
-    }
-
-    fn presentation_has_notes(xml: &str) -> bool {
-        xml.contains("<p:notesMasterIdLst>")
-    }
-
-    fn presentation_has_handout(xml: &str) -> bool {
-        xml.contains("<p:handoutMasterIdLst>")
-    }
-
-    fn update_presentation_xml(&mut self, new_slide_count: usize) -> Result<(), PptxError> {
-        if let Some(xml) = self.package.get_part_string("ppt/presentation.xml") {
-            // Parse and update the presentation XML
-            let updated = self.add_slide_to_presentation_xml(&xml, new_slide_count)?;
-            self.package
-                .add_part("ppt/presentation.xml".to_string(), updated.into_bytes());
+    /// Bring slide k of the presentation into `slide{k}.xml`.
+    fn number_slides(&mut self, paths: &[String]) {
+        let named = |k: usize| format!("slide{}.xml", k + 1);
+        let in_order = paths.iter().enumerate().all(|(k, p)| *p == format!("ppt/slides/{}", named(k)));
+        let names: Option<Vec<&str>> = paths.iter().map(|p| p.strip_prefix("ppt/slides/")).collect();
+        if let (false, Some(names)) = (in_order, names) {
+            let list = self.slide_list();
+            for (k, name) in names.iter().enumerate() {
+                self.rename_slide(name, &format!("_temp_{}", named(k)));
+            }
+            for k in 0..names.len() {
+                self.rename_slide(&format!("_temp_{}", named(k)), &named(k));
+            }
+            self.set_slide_list(&list);
         }
-        Ok(())
     }
 
-    fn add_slide_to_presentation_xml(
-        &self,
-        xml: &str,
-        slide_num: usize,
-    ) -> Result<String, PptxError> {
-        // Find </p:sldIdLst> and insert new slide reference before it
-        let has_notes = Self::presentation_has_notes(xml);
-        let has_handout = Self::presentation_has_handout(xml);
-        let slide_id = slide_id_value(slide_num);
-        let r_id = slide_rel_id(slide_num, has_notes, has_handout);
-
-        let new_slide_ref = format!("\n<p:sldId id=\"{slide_id}\" r:id=\"rId{r_id}\"/>");
-
-        if let Some(pos) = xml.find("</p:sldIdLst>") {
-            let mut result = xml.to_string();
-            result.insert_str(pos, &new_slide_ref);
-            Ok(result)
-        } else {
-            // If no sldIdLst, return as-is (shouldn't happen for valid PPTX)
-            Ok(xml.to_string())
+    /// Slide list of presentation.xml: slide id and relationship id of each slide.
+    fn slide_list(&self) -> Vec<(String, String)> {
+        let xml = self
+            .package
+            .get_part_string("ppt/presentation.xml")
+            .unwrap_or_default();
+        let mut list = Vec::new();
+        let mut from = 0;
+        while let Some((start, end)) = find_element(&xml, "p:sldId", from) {
+            let element = &xml[start..end];
+            if let (Some(id), Some(rid)) = (attr_value(element, "id"), attr_value(element, "r:id")) {
+                list.push((id.to_string(), rid.to_string()));
+            }
+            from = end;
         }
+        while list.len() < self.slide_count {
+            let entry = self.new_list_entry(&list);
+            list.push(entry);
+        }
+        list.truncate(self.slide_count);
+        list
     }
 
-    fn update_presentation_rels(&mut self, new_slide_count: usize) -> Result<(), PptxError> {
-        if let Some(xml) = self
+    /// A slide id and a relationship id that are not in use.
+    fn new_list_entry(&self, list: &[(String, String)]) -> (String, String) {
+        let id = list
+            .iter()
+            .filter_map(|(id, _)| id.parse::<u64>().ok())
+            .fold(255, u64::max)
+            + 1;
+        let rels = self
             .package
             .get_part_string("ppt/_rels/presentation.xml.rels")
+            .unwrap_or_default();
+        let mut n = self.slide_count + 2;
+        while rels.contains(&format!("\"rId{n}\""))
+            || list.iter().any(|(_, rid)| *rid == format!("rId{n}"))
         {
-            let updated = self.add_slide_to_presentation_rels(&xml, new_slide_count)?;
-            self.package.add_part(
-                "ppt/_rels/presentation.xml.rels".to_string(),
-                updated.into_bytes(),
-            );
+            n += 1;
         }
-        Ok(())
+        (id.to_string(), format!("rId{n}"))
     }
 
-    fn add_slide_to_presentation_rels(
-        &self,
-        xml: &str,
-        slide_num: usize,
-    ) -> Result<String, PptxError> {
-        let has_notes = Self::presentation_has_notes(xml);
-        let has_handout = Self::presentation_has_handout(xml);
-        let r_id = slide_rel_id(slide_num, has_notes, has_handout);
-        let new_rel = format!(
-            "\n<Relationship Id=\"rId{r_id}\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide\" Target=\"slides/slide{slide_num}.xml\"/>"
-        );
-
-        if let Some(pos) = xml.find("</Relationships>") {
-            let mut result = xml.to_string();
-            result.insert_str(pos, &new_rel);
-            Ok(result)
-        } else {
-            Ok(xml.to_string())
+    /// Write the slide list, with slide k in `slide{k}.xml`, and leave everything else as it is.
+    fn set_slide_list(&mut self, list: &[(String, String)]) {
+        self.slide_count = list.len();
+        self.edit_part("ppt/presentation.xml", |xml| {
+            let mut entries = String::from("<p:sldIdLst>");
+            for (id, rid) in list {
+                entries.push_str(&format!("\n<p:sldId id=\"{id}\" r:id=\"{rid}\"/>"));
+            }
+            entries.push_str("\n</p:sldIdLst>");
+            let mut result = without_elements(xml, "p14:sldId", |e| {
+                let id = attr_value(e, "id");
+                !list.iter().any(|(x, _)| Some(x.as_str()) == id)
+            });
+            if let Some((start, end)) = find_element(&result, "p:sldIdLst", 0) {
+                result.replace_range(start..end, &entries);
+            } else if let Some((_, end)) = ["p:handoutMasterIdLst", "p:notesMasterIdLst", "p:sldMasterIdLst"]
+                .iter()
+                .find_map(|tag| find_element(&result, tag, 0))
+            {
+                result.insert_str(end, &entries);
+            }
+            result
+        });
+        self.edit_part("ppt/_rels/presentation.xml.rels", |xml| {
+            let mut result = without_elements(xml, "Relationship", |e| {
+                attr_value(e, "Type").is_some_and(|t| t.ends_with("/slide"))
+            });
+            let pos = result.find("</Relationships>").unwrap_or(result.len());
+            let rels: String = list
+                .iter()
+                .enumerate()
+                .map(|(k, (_, rid))| format!(
+                    "\n<Relationship Id=\"{rid}\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide\" Target=\"slides/slide{}.xml\"/>",
+                    k + 1
+                ))
+                .collect();
+            result.insert_str(pos, &rels);
+            result
+        });
+        self.edit_part("[Content_Types].xml", |xml| {
+            let mut result = without_elements(xml, "Override", |e| {
+                attr_value(e, "ContentType").is_some_and(|t| t.ends_with(".slide+xml"))
+            });
+            let pos = result.find("</Types>").unwrap_or(result.len());
+            let overrides: String = (1..=list.len())
+                .map(|k| format!(
+                    "\n<Override PartName=\"/ppt/slides/slide{k}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.slide+xml\"/>"
+                ))
+                .collect();
+            result.insert_str(pos, &overrides);
+            result
+        });
+    }
+
+    fn edit_part(&mut self, path: &str, edit: impl Fn(&str) -> String) {
+        if let Some(xml) = self.package.get_part_string(path) {
+            self.package.add_part(path.to_string(), edit(&xml).into_bytes());
         }
     }
 
-    fn update_content_types(&mut self, new_slide_count: usize) -> Result<(), PptxError> {
-        if let Some(xml) = self.package.get_part_string("[Content_Types].xml") {
-            let updated = self.add_slide_to_content_types(&xml, new_slide_count)?;
-            self.package
-                .add_part("[Content_Types].xml".to_string(), updated.into_bytes());
+    /// Path of the notes page of a slide, from the slide's relationships.
+    fn notes_path(&self, slide_num: usize) -> Option<String> {
+        let rels = self
+            .package
+            .get_part_string(&format!("ppt/slides/_rels/slide{slide_num}.xml.rels"))?;
+        let mut from = 0;
+        while let Some((start, end)) = find_element(&rels, "Relationship", from) {
+            let element = &rels[start..end];
+            if attr_value(element, "Type").is_some_and(|t| t.ends_with("/notesSlide")) {
+                return attr_value(element, "Target")
+                    .map(|t| t.replacen("../", "ppt/", 1))
+                    .filter(|p| p.starts_with("ppt/notesSlides/"));
+            }
+            from = end;
+        }
+        None
+    }
+
+    /// Remove the notes page of a slide.
+    fn remove_notes(&mut self, slide_num: usize) {
+        if let Some(path) = self.notes_path(slide_num) {
+            self.package.remove_part(&path);
+            self.package.remove_part(&notes_rels_path(&path));
+            self.edit_part("[Content_Types].xml", |xml| {
+                without_elements(xml, "Override", |e| {
+                    attr_value(e, "PartName").is_some_and(|p| p.trim_start_matches('/') == path)
+                })
+            });
         }
-        Ok(())
     }
 
-    fn add_slide_to_content_types(&self, xml: &str, slide_num: usize) -> Result<String, PptxError> {
-        let new_override = format!(
-            "\n<Override PartName=\"/ppt/slides/slide{slide_num}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.slide+xml\"/>"
+    /// Give the copy of a slide its own copy of the notes page.
+    fn copy_notes(&mut self, slide_num: usize, copy_num: usize) {
+        let Some(path) = self.notes_path(slide_num) else { return };
+        let Some(notes) = self.package.get_part(&path).map(|n| n.to_vec()) else { return };
+        let mut n = 1;
+        while self.package.has_part(&format!("ppt/notesSlides/notesSlide{n}.xml")) {
+            n += 1;
+        }
+        let new_path = format!("ppt/notesSlides/notesSlide{n}.xml");
+        let rels = self.package.get_part_string(&notes_rels_path(&path)).unwrap_or_default();
+        self.package.add_part(new_path.clone(), notes);
+        self.package.add_part(
+            notes_rels_path(&new_path),
+            rels.replace(&format!("slides/slide{slide_num}.xml\""), &format!("slides/slide{copy_num}.xml\""))
+                .into_bytes(),
         );
+        let old_target = path.replacen("ppt/", "../", 1);
+        let new_target = new_path.replacen("ppt/", "../", 1);
+        self.edit_part(&format!("ppt/slides/_rels/slide{copy_num}.xml.rels"), |xml| {
+            xml.replace(&format!("\"{old_target}\""), &format!("\"{new_target}\""))
+        });
+        self.edit_part("[Content_Types].xml", |xml| {
+            xml.replace("</Types>", &format!(
+                "\n<Override PartName=\"/{new_path}\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml\"/></Types>"
+            ))
+        });
+    }
+
+    /// Let the relationships that lead to one slide lead to another target.
+    fn retarget(&mut self, old_name: &str, new_target: impl Fn(&str) -> String) {
+        let paths: Vec<String> = self
+            .package
+            .part_paths()
+            .into_iter()
+            .filter(|p| p.ends_with(".rels") && *p != "ppt/_rels/presentation.xml.rels")
+            .map(|p| p.to_string())
+            .collect();
+        for path in paths {
+            let Some(xml) = self.package.get_part_string(&path) else { continue };
+            let mut result = xml.clone();
+            let dirs: &[&str] = if path.starts_with("ppt/slides/") { &["../slides/", ""] } else { &["../slides/"] };
+            for dir in dirs {
+                result = result.replace(&format!("Target=\"{dir}{old_name}\""), &new_target(dir));
+            }
+            if result != xml {
+                self.package.add_part(path, result.into_bytes());
+            }
+        }
+    }
 
-        if let Some(pos) = xml.find("</Types>") {
-            let mut result = xml.to_string();
-            result.insert_str(pos, &new_override);
-            Ok(result)
-        } else {
-            Ok(xml.to_string())
+    fn rename_slide(&mut self, old_name: &str, new_name: &str) {
+        self.retarget(old_name, |dir| format!("Target=\"{dir}{new_name}\""));
+        if let Some(data) = self.package.remove_part(&format!("ppt/slides/{old_name}")) {
+            self.package.add_part(format!("ppt/slides/{new_name}"), data);
+        }
+        if let Some(data) = self.package.remove_part(&format!("ppt/slides/_rels/{old_name}.rels")) {
+            self.package.add_part(format!("ppt/slides/_rels/{new_name}.rels"), data);
         }
     }
 
@@ -413,110 +493,51 @@ impl PresentationEditor {
             self.package.add_part(new_rels, content);
         }
 
+        // Keep references to the slide
+        self.retarget(&format!("slide{old_num}.xml"), |dir| {
+            format!("Target=\"{dir}slide{new_num}.xml\"")
+        });
+
         Ok(())
     }
+}
 
-    fn rebuild_presentation_xml(&mut self) -> Result<(), PptxError> {
-        let existing = self
-            .package
-            .get_part_string("ppt/presentation.xml")
-            .unwrap_or_default();
-        let has_notes = Self::presentation_has_notes(&existing);
-        let has_handout = Self::presentation_has_handout(&existing);
-
-        let mut slide_refs = String::new();
-        for i in 1..=self.slide_count {
-            let slide_id = slide_id_value(i);
-            let r_id = slide_rel_id(i, has_notes, has_handout);
-            slide_refs.push_str(&format!(
-                "\n<p:sldId id=\"{slide_id}\" r:id=\"rId{r_id}\"/>"
-            ));
-        }
-
-        let mut xml = String::from(
-            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<p:presentation xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" xmlns:p="http://schemas.openxmlformats.org/presentationml/2006/main" saveSubsetFonts="1" autoCompressPictures="0">
-<p:sldMasterIdLst>
-<p:sldMasterId id="2147483648" r:id="rId1"/>
-</p:sldMasterIdLst>"#,
-        );
-
-        if has_notes {
-            xml.push_str(
-                r#"
-<p:notesMasterIdLst>
-<p:notesMasterId id="2147483650" r:id="rId6"/>
-</p:notesMasterIdLst>"#,
-            );
-        }
-
-        if has_handout {
-            let handout_rid = if has_notes { 7 } else { 6 };
-            xml.push_str(&format!(
-                r#"
-<p:handoutMasterIdLst>
-<p:handoutMasterId id="2147483651" r:id="rId{handout_rid}"/>
-</p:handoutMasterIdLst>"#
-            ));
+/// Range of the next `<tag ...>` element (with its content) at or after `from`.
+fn find_element(xml: &str, tag: &str, mut from: usize) -> Option<(usize, usize)> {
+    loop {
+        let start = from + xml[from..].find(&format!("<{tag}"))?;
+        let rest = &xml[start + 1 + tag.len()..];
+        from = start + 1;
+        if rest.starts_with(|c: char| c == '>' || c == '/' || c.is_whitespace()) {
+            let open_end = xml.len() - rest.len() + rest.find('>')? + 1;
+            if xml[..open_end].ends_with("/>") {
+                return Some((start, open_end));
+            }
+            let close = format!("</{tag}>");
+            return Some((start, open_end + xml[open_end..].find(&close)? + close.len()));
         }
-
-        xml.push_str(&format!(
-            r#"
-<p:sldIdLst>{slide_refs}
-</p:sldIdLst>
-<p:sldSz cx="9144000" cy="6858000" type="screen4x3"/>
-<p:notesSz cx="6858000" cy="9144000"/>
-</p:presentation>"#
-        ));
-
-        self.package
-            .add_part("ppt/presentation.xml".to_string(), xml.into_bytes());
-        Ok(())
     }
+}
 
-    fn rebuild_presentation_rels(&mut self) -> Result<(), PptxError> {
-        let existing = self
-            .package
-            .get_part_string("ppt/presentation.xml")
-            .unwrap_or_default();
-        let has_notes = Self::presentation_has_notes(&existing);
-        let has_handout = Self::presentation_has_handout(&existing);
-
-        let xml = create_presentation_rels_xml_full(self.slide_count, has_notes, has_handout);
-
-        self.package.add_part(
-            "ppt/_rels/presentation.xml.rels".to_string(),
-            xml.into_bytes(),
-        );
-        Ok(())
+fn without_elements(xml: &str, tag: &str, drop: impl Fn(&str) -> bool) -> String {
+    let mut result = String::with_capacity(xml.len());
+    let mut from = 0;
+    while let Some((start, end)) = find_element(xml, tag, from) {
+        let keep_to = if drop(&xml[start..end]) { start } else { end };
+        result.push_str(&xml[from..keep_to]);
+        from = end;
     }
+    result.push_str(&xml[from..]);
+    result
+}
 
-    fn rebuild_content_types(&mut self) -> Result<(), PptxError> {
-        let mut slide_overrides = String::new();
-        for i in 1..=self.slide_count {
-            slide_overrides.push_str(&format!(
-                "\n<Override PartName=\"/ppt/slides/slide{i}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.slide+xml\"/>"
-            ));
-        }
-
-        let xml = format!(
-            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types">
-<Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/>
-<Default Extension="xml" ContentType="application/xml"/>
-<Override PartName="/ppt/presentation.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"/>{slide_overrides}
-<Override PartName="/ppt/slideLayouts/slideLayout1.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.slideLayout+xml"/>
-<Override PartName="/ppt/slideMasters/slideMaster1.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.slideMaster+xml"/>
-<Override PartName="/ppt/theme/theme1.xml" ContentType="application/vnd.openxmlformats-officedocument.theme+xml"/>
-<Override PartName="/docProps/core.xml" ContentType="application/vnd.openxmlformats-package.core-properties+xml"/>
-<Override PartName="/docProps/app.xml" ContentType="application/vnd.openxmlformats-officedocument.extended-properties+xml"/>
-</Types>"#
-        );
+fn attr_value<'a>(element: &'a str, name: &str) -> Option<&'a str> {
+    let (_, rest) = element.split_once(&format!(" {name}=\""))?;
+    rest.split_once('"').map(|(value, _)| value)
+}
 
-        self.package
-            .add_part("[Content_Types].xml".to_string(), xml.into_bytes());
-        Ok(())
-    }
+fn notes_rels_path(path: &str) -> String {
+    format!("{}.rels", path.replacen("notesSlides/", "notesSlides/_rels/", 1))
 }
 
 impl Default for PresentationEditor {
diff --git a/src/oxml/presentation.rs b/src/oxml/presentation.rs
index 35950cf..d3a4bf3 100644
--- a/src/oxml/presentation.rs
+++ b/src/oxml/presentation.rs
@@ -60,6 +60,10 @@ impl PresentationReader {
     }
 
     /// Get presentation info
+    pub(crate) fn into_parts(self) -> (Package, Vec<String>) {
+        (self.package, self.slide_paths)
+    }
+
     pub fn info(&self) -> &PresentationInfo {
         &self.info
     }
-- 
2.43.0


From 44fb4d7c18b2c628bf56f5f3de80744d58451875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:35 +0000
Subject: [PATCH 30/39] fix: charts state each point, series name, direction
 and grouping as given

---
 src/generator/charts/xml.rs | 97 ++++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 44 deletions(-)

diff --git a/src/generator/charts/xml.rs b/src/generator/charts/xml.rs
index 6fe9bd1..7a6df03 100644
--- a/src/generator/charts/xml.rs
+++ b/src/generator/charts/xml.rs
@@ -109,45 +109,53 @@ fn chart_part_footer() -> &'static str {
 </c:chartSpace>"#
 }
 
+/// Sheet column of the values of a series: B, C, ..., Z, AA, ...
+fn series_column(idx: usize) -> String {
+    let mut number = idx + 2;
+    let mut column = String::new();
+    while number > 0 {
+        number -= 1;
+        column.insert(0, char::from(b'A' + (number % 26) as u8));
+        number /= 26;
+    }
+    column
+}
+
 /// Generate series data XML
 fn generate_series_data(_chart: &Chart, idx: usize, series_name: &str, values: &[f64]) -> String {
+    let column = series_column(idx);
     let mut xml = format!(
         r#"
 <c:ser>
 <c:idx val="{}"/>
 <c:order val="{}"/>
-<c:title>
 <c:tx>
-<c:rich>
-<a:bodyPr/>
-<a:lstStyle/>
-<a:p>
-<a:r>
-<a:rPr lang="en-US" sz="1000"/>
-<a:t>{}</a:t>
-</a:r>
-</a:p>
-</c:rich>
+<c:strRef>
+<c:f>Sheet1!${}$1</c:f>
+<c:strCache>
+<c:ptCount val="1"/>
+<c:pt idx="0"><c:v>{}</c:v></c:pt>
+</c:strCache>
+</c:strRef>
 </c:tx>
-</c:title>
 <c:dLbls>
 <c:showVal val="0"/>
 </c:dLbls>
 <c:val>
 <c:numRef>
-<c:f>Sheet1!$B${}:$B${}</c:f>
+<c:f>Sheet1!${}$2:${}${}</c:f>
 <c:numCache>
 <c:formatCode>General</c:formatCode>"#,
-        idx, idx, escape_xml(series_name), 2 + idx, 2 + idx + values.len()
+        idx, idx, column, escape_xml(series_name), column, column, 1 + values.len()
     );
 
-    for value in values {
+    for (i, value) in values.iter().enumerate() {
         xml.push_str(&format!(
             r#"
-<c:pt idx="0">
+<c:pt idx="{}">
 <c:v>{}</c:v>
 </c:pt>"#,
-            value
+            i, value
         ));
     }
 
@@ -230,9 +238,11 @@ fn generate_value_axis(ax_pos: &str) -> String {
 fn generate_bar_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
-    xml.push_str(r#"<c:barChart>
-<c:barDir val="bar"/>
-<c:grouping val="clustered"/>"#);
+    let direction = chart.chart_type.bar_direction().unwrap_or("col");
+    let grouping = chart.chart_type.grouping().unwrap_or("clustered");
+    xml.push_str(&format!(r#"<c:barChart>
+<c:barDir val="{}"/>
+<c:grouping val="{}"/>"#, direction, grouping));
 
     for (idx, series) in chart.series.iter().enumerate() {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
@@ -250,8 +260,9 @@ fn generate_bar_chart_xml(chart: &Chart) -> String {
 fn generate_line_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
-    xml.push_str(r#"<c:lineChart>
-<c:grouping val="lineMarkers"/>"#);
+    let grouping = chart.chart_type.grouping().unwrap_or("standard");
+    xml.push_str(&format!(r#"<c:lineChart>
+<c:grouping val="{}"/>"#, grouping));
 
     for (idx, series) in chart.series.iter().enumerate() {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
@@ -279,20 +290,15 @@ fn generate_pie_chart_xml(chart: &Chart) -> String {
 <c:ser>
 <c:idx val="0"/>
 <c:order val="0"/>
-<c:title>
 <c:tx>
-<c:rich>
-<a:bodyPr/>
-<a:lstStyle/>
-<a:p>
-<a:r>
-<a:rPr lang="en-US" sz="1000"/>
-<a:t>{}</a:t>
-</a:r>
-</a:p>
-</c:rich>
+<c:strRef>
+<c:f>Sheet1!$B$1</c:f>
+<c:strCache>
+<c:ptCount val="1"/>
+<c:pt idx="0"><c:v>{}</c:v></c:pt>
+</c:strCache>
+</c:strRef>
 </c:tx>
-</c:title>
 <c:dLbls>
 <c:showCatName val="1"/>
 <c:showPercent val="1"/>
@@ -470,6 +476,7 @@ fn generate_scatter_chart_xml(chart: &Chart) -> String {
 <c:scatterStyle val="{}"/>"#, scatter_style));
 
     for (idx, series) in chart.series.iter().enumerate() {
+        let column = series_column(idx);
         xml.push_str(&format!(
             r#"
 <c:ser>
@@ -477,7 +484,7 @@ fn generate_scatter_chart_xml(chart: &Chart) -> String {
 <c:order val="{}"/>
 <c:tx>
 <c:strRef>
-<c:f>Sheet1!$B$1</c:f>
+<c:f>Sheet1!${}$1</c:f>
 <c:strCache>
 <c:ptCount val="1"/>
 <c:pt idx="0"><c:v>{}</c:v></c:pt>
@@ -489,7 +496,7 @@ fn generate_scatter_chart_xml(chart: &Chart) -> String {
 <c:f>Sheet1!$A$2:$A${}</c:f>
 <c:numCache>
 <c:formatCode>General</c:formatCode>"#,
-            idx, idx, escape_xml(&series.name), 1 + series.values.len()
+            idx, idx, column, escape_xml(&series.name), 1 + series.values.len()
         ));
 
         // X values (use index as X)
@@ -510,10 +517,10 @@ fn generate_scatter_chart_xml(chart: &Chart) -> String {
 </c:xVal>
 <c:yVal>
 <c:numRef>
-<c:f>Sheet1!$B$2:$B${}</c:f>
+<c:f>Sheet1!${}$2:${}${}</c:f>
 <c:numCache>
 <c:formatCode>General</c:formatCode>"#,
-            1 + series.values.len()
+            column, column, 1 + series.values.len()
         ));
 
         for (i, value) in series.values.iter().enumerate() {
@@ -552,6 +559,8 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
 <c:bubbleScale val="100"/>"#);
 
     for (idx, series) in chart.series.iter().enumerate() {
+        let column = series_column(2 * idx);
+        let size_column = series_column(2 * idx + 1);
         xml.push_str(&format!(
             r#"
 <c:ser>
@@ -559,7 +568,7 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
 <c:order val="{}"/>
 <c:tx>
 <c:strRef>
-<c:f>Sheet1!$B$1</c:f>
+<c:f>Sheet1!${}$1</c:f>
 <c:strCache>
 <c:ptCount val="1"/>
 <c:pt idx="0"><c:v>{}</c:v></c:pt>
@@ -571,7 +580,7 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
 <c:f>Sheet1!$A$2:$A${}</c:f>
 <c:numCache>
 <c:formatCode>General</c:formatCode>"#,
-            idx, idx, escape_xml(&series.name), 1 + series.values.len()
+            idx, idx, column, escape_xml(&series.name), 1 + series.values.len()
         ));
 
         for (i, _) in series.values.iter().enumerate() {
@@ -591,10 +600,10 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
 </c:xVal>
 <c:yVal>
 <c:numRef>
-<c:f>Sheet1!$B$2:$B${}</c:f>
+<c:f>Sheet1!${}$2:${}${}</c:f>
 <c:numCache>
 <c:formatCode>General</c:formatCode>"#,
-            1 + series.values.len()
+            column, column, 1 + series.values.len()
         ));
 
         for (i, value) in series.values.iter().enumerate() {
@@ -614,10 +623,10 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
 </c:yVal>
 <c:bubbleSize>
 <c:numRef>
-<c:f>Sheet1!$C$2:$C${}</c:f>
+<c:f>Sheet1!${}$2:${}${}</c:f>
 <c:numCache>
 <c:formatCode>General</c:formatCode>"#,
-            1 + series.values.len()
+            size_column, size_column, 1 + series.values.len()
         ));
 
         // Bubble sizes (use values as sizes)
-- 
2.43.0


From 08b0ad0770cf0efc2b5957b956e7762d645a690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:35 +0000
Subject: [PATCH 31/39] fix: the well-formedness check rejects XML that is not
 well-formed

---
 src/core/validation.rs | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/src/core/validation.rs b/src/core/validation.rs
index d4b6a11..c73f0f0 100644
--- a/src/core/validation.rs
+++ b/src/core/validation.rs
@@ -2,6 +2,7 @@
 
 use crate::exc::{messages, PptxError, Result};
 use std::collections::HashSet;
+use xml::reader::EventReader;
 
 /// A required PPTX package part and its human-readable description.
 pub type RequiredPart = (&'static str, &'static str);
@@ -98,34 +99,15 @@ pub fn validate_positive(value: u32, field: &str) -> Result<()> {
     Ok(())
 }
 
-/// Basic well-formedness check for XML / RELS content.
+/// Well-formedness check for XML / RELS content.
 pub fn validate_well_formed_xml(xml: &str) -> Result<()> {
     let trimmed = xml.trim();
     if trimmed.is_empty() {
         return Err(PptxError::InvalidXml(messages::empty_xml_content()));
     }
 
-    let mut in_tag = false;
-    let mut in_string = false;
-    let mut string_char = '"';
-
-    for ch in trimmed.chars() {
-        match ch {
-            '"' | '\'' if in_tag && !in_string => {
-                in_string = true;
-                string_char = ch;
-            }
-            c if in_string && c == string_char => {
-                in_string = false;
-            }
-            '<' if !in_string => {
-                in_tag = true;
-            }
-            '>' if !in_string => {
-                in_tag = false;
-            }
-            _ => {}
-        }
+    for event in EventReader::from_str(trimmed) {
+        event.map_err(|e| PptxError::InvalidXml(e.to_string()))?;
     }
 
     Ok(())
-- 
2.43.0


From 9442fc4d1e89e536f4a7ede12b4b132312169d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:31 +0000
Subject: [PATCH 32/39] fix: the package check reads relationships, slide lists
 and content types as XML

---
 src/core/package_validation/context.rs | 66 +++++++-----------------
 src/core/package_validation/rules.rs   | 70 ++++++++++++--------------
 2 files changed, 49 insertions(+), 87 deletions(-)

diff --git a/src/core/package_validation/context.rs b/src/core/package_validation/context.rs
index b2e21f0..dce2d32 100644
--- a/src/core/package_validation/context.rs
+++ b/src/core/package_validation/context.rs
@@ -5,6 +5,8 @@ use std::io::{Read, Seek};
 
 use zip::ZipArchive;
 
+use crate::oxml::XmlParser;
+
 use super::rels::{rels_source_dir, resolve_rel_target};
 use super::report::{PackageValidationIssue, ValidationCategory};
 
@@ -115,52 +117,20 @@ impl PackageContext {
 
 fn parse_relationships(rels_xml: &str, base_dir: &str) -> Vec<Relationship> {
     // base_dir is the directory of the relationship source part
-    let mut relationships = Vec::new();
-    let mut search_from = 0;
-
-    while let Some(id_start) = rels_xml[search_from..].find("Id=\"") {
-        let abs_id = search_from + id_start + 4;
-        let Some(id_end) = rels_xml[abs_id..].find('"') else {
-            break;
-        };
-        let id = rels_xml[abs_id..abs_id + id_end].to_string();
-
-        let target_needle = "Target=\"";
-        let after_id = abs_id + id_end;
-        let Some(target_start) = rels_xml[after_id..].find(target_needle) else {
-            search_from = after_id;
-            continue;
-        };
-        let abs_target = after_id + target_start + target_needle.len();
-        let Some(target_end) = rels_xml[abs_target..].find('"') else {
-            break;
-        };
-        let target = rels_xml[abs_target..abs_target + target_end].to_string();
-
-        // Scope the `TargetMode` lookup to the remainder of this element so the
-        // attribute of a later relationship is never mis-attributed.
-        let element_tail_end = rels_xml[abs_target + target_end..]
-            .find('>')
-            .map(|p| abs_target + target_end + p)
-            .unwrap_or(rels_xml.len());
-        let element_tail = &rels_xml[abs_target + target_end..element_tail_end];
-        let target_mode = if element_tail.contains("TargetMode=\"External\"") {
-            "External".to_string()
-        } else {
-            String::new()
-        };
-
-        let resolved = resolve_rel_target(base_dir, &target);
-
-        relationships.push(Relationship {
-            id,
-            target,
-            resolved,
-            target_mode,
-        });
-
-        search_from = element_tail_end;
-    }
-
-    relationships
+    let Ok(root) = XmlParser::parse_str(rels_xml) else {
+        return Vec::new();
+    };
+    root.find_all("Relationship")
+        .into_iter()
+        .map(|element| {
+            let value = |name| element.attr(name).unwrap_or_default().to_string();
+            let target = value("Target");
+            Relationship {
+                id: value("Id"),
+                resolved: resolve_rel_target(base_dir, &target),
+                target,
+                target_mode: value("TargetMode"),
+            }
+        })
+        .collect()
 }
diff --git a/src/core/package_validation/rules.rs b/src/core/package_validation/rules.rs
index ff87f65..2c5c8dc 100644
--- a/src/core/package_validation/rules.rs
+++ b/src/core/package_validation/rules.rs
@@ -7,6 +7,7 @@ use zip::ZipArchive;
 
 use crate::core::validation::validate_well_formed_xml;
 use crate::generator::package_xml::{first_slide_rel_id, slide_id_value};
+use crate::oxml::XmlParser;
 
 use super::context::PackageContext;
 use super::report::{
@@ -93,14 +94,17 @@ fn check_xml_parts<R: Read + Seek>(
         .collect();
 
     for path in xml_parts {
-        if let Some(content) = ctx.read_part(archive, &path)
-            && let Err(e) = validate_well_formed_xml(&content) {
-                report.push(PackageValidationIssue::error(
-                    ValidationCategory::Xml,
-                    e.to_string(),
-                    Some(&path),
-                ));
-            }
+        let checked = match ctx.read_part(archive, &path) {
+            Some(content) => validate_well_formed_xml(&content).map_err(|e| e.to_string()),
+            None => Err(format!("{path} cannot be read as text")),
+        };
+        if let Err(message) = checked {
+            report.push(PackageValidationIssue::error(
+                ValidationCategory::Xml,
+                message,
+                Some(&path),
+            ));
+        }
     }
 }
 
@@ -135,17 +139,18 @@ fn check_content_types<R: Read + Seek>(
         return;
     };
 
+    let overrides = extract_attr_values(&ct, "Override", "PartName");
+    let defaults = extract_attr_values(&ct, "Default", "Extension");
+
     for path in &ctx.names {
         if path.ends_with(".rels") || path == "[Content_Types].xml" {
             continue;
         }
-        let override_path = format!("/{path}");
-        if ct.contains(&override_path) {
+        if overrides.iter().any(|name| name.strip_prefix('/') == Some(path)) {
             continue;
         }
         let ext = path.rsplit('.').next().unwrap_or("");
-        let default_needle = format!("Extension=\"{ext}\"");
-        if ext.is_empty() || !ct.contains(&default_needle) {
+        if ext.is_empty() || !defaults.iter().any(|d| d.eq_ignore_ascii_case(ext)) {
             report.push(PackageValidationIssue::error(
                 ValidationCategory::ContentType,
                 format!("Part {path} has no Override or Default in [Content_Types].xml"),
@@ -169,7 +174,8 @@ fn check_presentation_structure<R: Read + Seek>(
         .map(|r| (r.id.as_str(), r.resolved.as_str()))
         .collect();
 
-    let sld_id_count = pres.matches("<p:sldId ").count();
+    let sld_rids = extract_attr_values(&pres, "p:sldId", "r:id");
+    let sld_id_count = sld_rids.len();
 
     if sld_id_count > 0 {
         let first_id = format!("id=\"{}\"", slide_id_value(1));
@@ -201,7 +207,7 @@ fn check_presentation_structure<R: Read + Seek>(
 
     validate_presentation_rel_order(pres_rels, report);
 
-    for sld_rid in extract_attr_values(&pres, "p:sldId", "r:id") {
+    for sld_rid in sld_rids {
         let target = rel_by_id.get(sld_rid.as_str());
         match target {
             Some(t) if t.contains("/slides/slide") => {}
@@ -323,8 +329,8 @@ fn check_master_id_uniqueness(
         .collect();
 
     for (tag, label) in [
-        ("notesMasterId", "notes master"),
-        ("handoutMasterId", "handout master"),
+        ("p:notesMasterId", "notes master"),
+        ("p:handoutMasterId", "handout master"),
     ] {
         for id in extract_attr_values(pres, tag, "id") {
             if layout_ids.contains(&id) {
@@ -572,29 +578,15 @@ fn is_slide_part(path: &str) -> bool {
 
 /// Extract `attr="value"` from elements like `<p:sldId id="256" r:id="rId6"/>`.
 fn extract_attr_values(xml: &str, element: &str, attr: &str) -> Vec<String> {
-    let mut values = Vec::new();
-    let needle = format!("<{element}");
-    let attr_needle = format!("{attr}=\"");
-    let mut search_from = 0;
-
-    while let Some(start) = xml[search_from..].find(&needle) {
-        let abs = search_from + start;
-        let end = xml[abs..]
-            .find("/>")
-            .or_else(|| xml[abs..].find("</"))
-            .map(|i| abs + i)
-            .unwrap_or(xml.len());
-        let slice = &xml[abs..end];
-        if let Some(attr_start) = slice.find(&attr_needle) {
-            let val_start = attr_start + attr_needle.len();
-            if let Some(val_end) = slice[val_start..].find('"') {
-                values.push(slice[val_start..val_start + val_end].to_string());
-            }
-        }
-        search_from = end;
-    }
-
-    values
+    let Ok(root) = XmlParser::parse_str(xml) else {
+        return Vec::new();
+    };
+    let local_name = element.rsplit(':').next().unwrap_or(element);
+    root.find_all_descendants(local_name)
+        .into_iter()
+        .filter(|e| e.tag == element)
+        .filter_map(|e| e.attr(attr).map(str::to_string))
+        .collect()
 }
 
 /// Collect `r:embed` and chart-style `r:id` references from slide XML.
-- 
2.43.0


From 6467e47a3e3c03bf7ba166452e900321588283e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:53 +0000
Subject: [PATCH 33/39] fix: the relationship of a show action does not claim
 to be a part of the package

---
 src/generator/hyperlinks.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/generator/hyperlinks.rs b/src/generator/hyperlinks.rs
index 11eadd5..d1eed08 100644
--- a/src/generator/hyperlinks.rs
+++ b/src/generator/hyperlinks.rs
@@ -203,7 +203,8 @@ pub fn generate_shape_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String
 /// Generate relationship XML for hyperlink
 pub fn generate_hyperlink_relationship_xml(hyperlink: &Hyperlink, r_id: &str) -> String {
     let target = hyperlink.action.relationship_target();
-    let target_mode = if hyperlink.action.is_external() {
+    // the target of a show action is not a part of the package
+    let target_mode = if hyperlink.action.is_external() || hyperlink.action.action_type().is_some() {
         r#" TargetMode="External""#
     } else {
         ""
-- 
2.43.0


From 93e85f6d5f5a68cb7fda1c78bd8f6504c8a7ca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:45 +0000
Subject: [PATCH 34/39] fix: the well-formedness check scans a part once and in
 little time

---
 src/core/mod.rs                        |   1 +
 src/core/package_validation/context.rs |   9 +-
 src/core/package_validation/rules.rs   |  13 +-
 src/core/validation.rs                 |   8 +-
 src/core/xml_scan.rs                   | 191 +++++++++++++++++++++++++
 5 files changed, 203 insertions(+), 19 deletions(-)
 create mode 100644 src/core/xml_scan.rs

diff --git a/src/core/mod.rs b/src/core/mod.rs
index 2e3b90f..29629d4 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -9,6 +9,7 @@ mod placement;
 mod powerpoint_compat;
 mod traits;
 mod validation;
+pub(crate) mod xml_scan;
 mod xml_utils;
 
 pub use dimension::{Dimension, FlexPosition, FlexSize, SLIDE_HEIGHT_EMU, SLIDE_WIDTH_EMU};
diff --git a/src/core/package_validation/context.rs b/src/core/package_validation/context.rs
index dce2d32..c7d0b44 100644
--- a/src/core/package_validation/context.rs
+++ b/src/core/package_validation/context.rs
@@ -5,7 +5,7 @@ use std::io::{Read, Seek};
 
 use zip::ZipArchive;
 
-use crate::oxml::XmlParser;
+use crate::core::xml_scan::scan_tags;
 
 use super::rels::{rels_source_dir, resolve_rel_target};
 use super::report::{PackageValidationIssue, ValidationCategory};
@@ -117,11 +117,10 @@ impl PackageContext {
 
 fn parse_relationships(rels_xml: &str, base_dir: &str) -> Vec<Relationship> {
     // base_dir is the directory of the relationship source part
-    let Ok(root) = XmlParser::parse_str(rels_xml) else {
-        return Vec::new();
-    };
-    root.find_all("Relationship")
+    scan_tags(rels_xml)
+        .unwrap_or_default()
         .into_iter()
+        .filter(|tag| tag.name == "Relationship")
         .map(|element| {
             let value = |name| element.attr(name).unwrap_or_default().to_string();
             let target = value("Target");
diff --git a/src/core/package_validation/rules.rs b/src/core/package_validation/rules.rs
index 2c5c8dc..9bd6d12 100644
--- a/src/core/package_validation/rules.rs
+++ b/src/core/package_validation/rules.rs
@@ -6,8 +6,8 @@ use std::io::{Read, Seek};
 use zip::ZipArchive;
 
 use crate::core::validation::validate_well_formed_xml;
+use crate::core::xml_scan::scan_tags;
 use crate::generator::package_xml::{first_slide_rel_id, slide_id_value};
-use crate::oxml::XmlParser;
 
 use super::context::PackageContext;
 use super::report::{
@@ -578,13 +578,10 @@ fn is_slide_part(path: &str) -> bool {
 
 /// Extract `attr="value"` from elements like `<p:sldId id="256" r:id="rId6"/>`.
 fn extract_attr_values(xml: &str, element: &str, attr: &str) -> Vec<String> {
-    let Ok(root) = XmlParser::parse_str(xml) else {
-        return Vec::new();
-    };
-    let local_name = element.rsplit(':').next().unwrap_or(element);
-    root.find_all_descendants(local_name)
-        .into_iter()
-        .filter(|e| e.tag == element)
+    scan_tags(xml)
+        .unwrap_or_default()
+        .iter()
+        .filter(|e| e.name == element)
         .filter_map(|e| e.attr(attr).map(str::to_string))
         .collect()
 }
diff --git a/src/core/validation.rs b/src/core/validation.rs
index c73f0f0..a6ef61a 100644
--- a/src/core/validation.rs
+++ b/src/core/validation.rs
@@ -1,8 +1,8 @@
 //! Shared validation helpers used across generators, repair, and CLI tools.
 
+use super::xml_scan::scan_tags;
 use crate::exc::{messages, PptxError, Result};
 use std::collections::HashSet;
-use xml::reader::EventReader;
 
 /// A required PPTX package part and its human-readable description.
 pub type RequiredPart = (&'static str, &'static str);
@@ -106,11 +106,7 @@ pub fn validate_well_formed_xml(xml: &str) -> Result<()> {
         return Err(PptxError::InvalidXml(messages::empty_xml_content()));
     }
 
-    for event in EventReader::from_str(trimmed) {
-        event.map_err(|e| PptxError::InvalidXml(e.to_string()))?;
-    }
-
-    Ok(())
+    scan_tags(trimmed).map(|_| ()).map_err(PptxError::InvalidXml)
 }
 
 /// Check that all required part paths exist in `found`.
diff --git a/src/core/xml_scan.rs b/src/core/xml_scan.rs
new file mode 100644
index 0000000..2e871ca
--- /dev/null
+++ b/src/core/xml_scan.rs
@@ -0,0 +1,191 @@
+//! Well-formedness scan of package XML, yielding the start tags it passes.
+
+/// A start tag (or empty element) with its decoded attributes.
+pub(crate) struct XmlTag {
+    pub name: String,
+    pub attributes: Vec<(String, String)>,
+}
+
+impl XmlTag {
+    pub(crate) fn attr(&self, name: &str) -> Option<&str> {
+        self.attributes
+            .iter()
+            .find(|(n, _)| n == name)
+            .map(|(_, value)| value.as_str())
+    }
+}
+
+/// Every start tag of `xml` in document order, or why `xml` is not well-formed.
+pub(crate) fn scan_tags(xml: &str) -> Result<Vec<XmlTag>, String> {
+    let mut rest = xml.strip_prefix('\u{feff}').unwrap_or(xml);
+    if (0..0x20u8).any(|c| !matches!(c, b'\t' | b'\n' | b'\r') && xml.contains(char::from(c))) {
+        return Err("control character".to_string());
+    }
+    let mut tags: Vec<XmlTag> = Vec::new();
+    // names of the open elements, with the number of prefixes declared outside them
+    let mut open: Vec<(&str, usize)> = Vec::new();
+    let mut prefixes: Vec<String> = vec!["xml".to_string()];
+
+    while let Some(start) = rest.find('<') {
+        check_text(&rest[..start], open.is_empty())?;
+        rest = &rest[start..];
+
+        if let Some(after) = rest.strip_prefix("<!--") {
+            let end = after.find("--").ok_or("unclosed comment")?;
+            rest = after[end..].strip_prefix("-->").ok_or("`--` in a comment")?;
+        } else if let Some(after) = rest.strip_prefix("<?") {
+            let end = after.find("?>").ok_or("unclosed processing instruction")?;
+            rest = &after[end + 2..];
+        } else if let Some(after) = rest.strip_prefix("<![CDATA[") {
+            if open.is_empty() {
+                return Err("text outside the root element".to_string());
+            }
+            let end = after.find("]]>").ok_or("unclosed CDATA section")?;
+            rest = &after[end + 3..];
+        } else if let Some(after) = rest.strip_prefix("</") {
+            let end = after.find('>').ok_or("unclosed end tag")?;
+            let (name, declared) = open.pop().ok_or("end tag without a start tag")?;
+            if after[..end].trim_end() != name {
+                return Err(format!("`{}` closes `{name}`", &after[..end]));
+            }
+            prefixes.truncate(declared);
+            rest = &after[end + 1..];
+        } else {
+            let (tag, after) = split_tag(&rest[1..])?;
+            if open.is_empty() && !tags.is_empty() {
+                return Err("more than one root element".to_string());
+            }
+            let (body, empty) = match tag.strip_suffix('/') {
+                Some(body) => (body, true),
+                None => (tag, false),
+            };
+            let end = body.find(char::is_whitespace).unwrap_or(body.len());
+            let name = &body[..end];
+            let attributes = scan_attributes(&body[end..])?;
+            let declared = prefixes.len();
+            for (attribute, _) in &attributes {
+                if let Some(prefix) = attribute.strip_prefix("xmlns:") {
+                    prefixes.push(prefix.to_string());
+                }
+            }
+            check_name(name, &prefixes)?;
+            for (attribute, _) in &attributes {
+                if !attribute.starts_with("xmlns:") {
+                    check_name(attribute, &prefixes)?;
+                }
+            }
+            if empty {
+                prefixes.truncate(declared);
+            } else {
+                open.push((name, declared));
+            }
+            tags.push(XmlTag {
+                name: name.to_string(),
+                attributes,
+            });
+            rest = after;
+        }
+    }
+    check_text(rest, open.is_empty())?;
+    if let Some((name, _)) = open.last() {
+        return Err(format!("`{name}` is not closed"));
+    }
+    if tags.is_empty() {
+        return Err("no root element".to_string());
+    }
+    Ok(tags)
+}
+
+/// Split at the `>` that ends a tag; one inside a quoted value does not.
+fn split_tag(text: &str) -> Result<(&str, &str), String> {
+    let mut from = 0;
+    loop {
+        let end = from + text[from..].find('>').ok_or("unclosed tag")?;
+        let quoted = ['"', '\'']
+            .into_iter()
+            .filter_map(|quote| text[from..end].find(quote).map(|at| (from + at, quote)))
+            .min();
+        let Some((at, quote)) = quoted else {
+            return Ok((&text[..end], &text[end + 1..]));
+        };
+        let close = text[at + 1..].find(quote).ok_or("unclosed attribute value")?;
+        from = at + 1 + close + 1;
+    }
+}
+
+fn scan_attributes(text: &str) -> Result<Vec<(String, String)>, String> {
+    let mut attributes: Vec<(String, String)> = Vec::new();
+    let mut rest = text;
+    while !rest.trim_start().is_empty() {
+        if !rest.starts_with(char::is_whitespace) {
+            return Err("no space before an attribute".to_string());
+        }
+        let (name, after) = rest.trim_start().split_once('=').ok_or("attribute without a value")?;
+        let name = name.trim_end();
+        let after = after.trim_start();
+        let quote = after.chars().next().filter(|c| matches!(c, '"' | '\'')).ok_or("unquoted attribute value")?;
+        let (value, after) = after[1..].split_once(quote).ok_or("unclosed attribute value")?;
+        if value.contains('<') || name.is_empty() {
+            return Err(format!("malformed attribute `{name}`"));
+        }
+        if attributes.iter().any(|(n, _)| n == name) {
+            return Err(format!("attribute `{name}` is given twice"));
+        }
+        attributes.push((name.to_string(), decode_references(value)?));
+        rest = after;
+    }
+    Ok(attributes)
+}
+
+fn check_name(name: &str, prefixes: &[String]) -> Result<(), String> {
+    let well_formed = name.starts_with(|c: char| c.is_alphabetic() || c == '_')
+        && name.chars().all(|c| c.is_alphanumeric() || matches!(c, '_' | '-' | '.' | ':' | '\u{b7}'));
+    if !well_formed {
+        return Err(format!("`{name}` is not a name"));
+    }
+    match name.split_once(':') {
+        Some((prefix, _)) if !prefixes.iter().any(|p| p == prefix) => {
+            Err(format!("prefix `{prefix}` is not declared"))
+        }
+        _ => Ok(()),
+    }
+}
+
+fn check_text(text: &str, outside: bool) -> Result<(), String> {
+    if outside && !text.trim().is_empty() {
+        return Err("text outside the root element".to_string());
+    }
+    if text.contains("]]>") {
+        return Err("`]]>` in text".to_string());
+    }
+    decode_references(text).map(|_| ())
+}
+
+/// The text with its entity and character references replaced.
+fn decode_references(text: &str) -> Result<String, String> {
+    let mut decoded = String::with_capacity(text.len());
+    let mut rest = text;
+    while let Some(at) = rest.find('&') {
+        decoded.push_str(&rest[..at]);
+        let (name, after) = rest[at + 1..].split_once(';').ok_or("unescaped `&`")?;
+        let c = match name {
+            "amp" => Some('&'),
+            "lt" => Some('<'),
+            "gt" => Some('>'),
+            "quot" => Some('"'),
+            "apos" => Some('\''),
+            _ => {
+                let code = match name.strip_prefix("#x") {
+                    Some(hex) => u32::from_str_radix(hex, 16).ok(),
+                    None => name.strip_prefix('#').and_then(|n| n.parse().ok()),
+                };
+                code.and_then(char::from_u32)
+                    .filter(|c| *c >= ' ' || matches!(c, '\t' | '\n' | '\r'))
+            }
+        };
+        decoded.push(c.ok_or_else(|| format!("unknown reference `&{name};`"))?);
+        rest = after;
+    }
+    decoded.push_str(rest);
+    Ok(decoded)
+}
-- 
2.43.0


From 76236af62cb5f4fbbaa73a78ee4fd41060098ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:31 +0000
Subject: [PATCH 35/39] fix: repair reads the package as XML and changes only
 what is broken

---
 src/core/mod.rs                    |   2 +-
 src/core/package_validation/mod.rs |   2 +-
 src/core/xml_scan.rs               |  33 +-
 src/oxml/repair.rs                 | 614 +++++++++++++++--------------
 4 files changed, 346 insertions(+), 305 deletions(-)

diff --git a/src/core/mod.rs b/src/core/mod.rs
index 29629d4..922d66e 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -4,7 +4,7 @@
 //! XML generation and consistent behavior across all PPTX elements.
 
 mod dimension;
-mod package_validation;
+pub(crate) mod package_validation;
 mod placement;
 mod powerpoint_compat;
 mod traits;
diff --git a/src/core/package_validation/mod.rs b/src/core/package_validation/mod.rs
index e30b09a..9e1d2cd 100644
--- a/src/core/package_validation/mod.rs
+++ b/src/core/package_validation/mod.rs
@@ -4,7 +4,7 @@
 //! structural issues before opening in PowerPoint.
 
 mod context;
-mod rels;
+pub(crate) mod rels;
 mod report;
 mod rules;
 
diff --git a/src/core/xml_scan.rs b/src/core/xml_scan.rs
index 2e871ca..e0fdd34 100644
--- a/src/core/xml_scan.rs
+++ b/src/core/xml_scan.rs
@@ -1,9 +1,15 @@
 //! Well-formedness scan of package XML, yielding the start tags it passes.
 
-/// A start tag (or empty element) with its decoded attributes.
+use std::ops::Range;
+
+/// An element: its start tag with the decoded attributes, and where it stands in the text.
 pub(crate) struct XmlTag {
     pub name: String,
     pub attributes: Vec<(String, String)>,
+    /// From the start tag to the end tag.
+    pub span: Range<usize>,
+    /// Between the two tags; empty at the end of `span` for an empty-element tag.
+    pub inner: Range<usize>,
 }
 
 impl XmlTag {
@@ -15,16 +21,23 @@ impl XmlTag {
     }
 }
 
-/// Every start tag of `xml` in document order, or why `xml` is not well-formed.
+/// Every element of `xml` in document order, or why `xml` is not well-formed.
 pub(crate) fn scan_tags(xml: &str) -> Result<Vec<XmlTag>, String> {
+    scan_fragment(xml, &[])
+}
+
+/// As [`scan_tags`], for text cut from a document that declares `declared` prefixes.
+pub(crate) fn scan_fragment(xml: &str, declared: &[&str]) -> Result<Vec<XmlTag>, String> {
     let mut rest = xml.strip_prefix('\u{feff}').unwrap_or(xml);
     if (0..0x20u8).any(|c| !matches!(c, b'\t' | b'\n' | b'\r') && xml.contains(char::from(c))) {
         return Err("control character".to_string());
     }
     let mut tags: Vec<XmlTag> = Vec::new();
     // names of the open elements, with the number of prefixes declared outside them
-    let mut open: Vec<(&str, usize)> = Vec::new();
+    // and their index in `tags`
+    let mut open: Vec<(&str, usize, usize)> = Vec::new();
     let mut prefixes: Vec<String> = vec!["xml".to_string()];
+    prefixes.extend(declared.iter().map(|prefix| prefix.to_string()));
 
     while let Some(start) = rest.find('<') {
         check_text(&rest[..start], open.is_empty())?;
@@ -44,12 +57,14 @@ pub(crate) fn scan_tags(xml: &str) -> Result<Vec<XmlTag>, String> {
             rest = &after[end + 3..];
         } else if let Some(after) = rest.strip_prefix("</") {
             let end = after.find('>').ok_or("unclosed end tag")?;
-            let (name, declared) = open.pop().ok_or("end tag without a start tag")?;
+            let (name, declared, tag) = open.pop().ok_or("end tag without a start tag")?;
             if after[..end].trim_end() != name {
                 return Err(format!("`{}` closes `{name}`", &after[..end]));
             }
             prefixes.truncate(declared);
+            tags[tag].inner.end = xml.len() - rest.len();
             rest = &after[end + 1..];
+            tags[tag].span.end = xml.len() - rest.len();
         } else {
             let (tag, after) = split_tag(&rest[1..])?;
             if open.is_empty() && !tags.is_empty() {
@@ -77,17 +92,21 @@ pub(crate) fn scan_tags(xml: &str) -> Result<Vec<XmlTag>, String> {
             if empty {
                 prefixes.truncate(declared);
             } else {
-                open.push((name, declared));
+                open.push((name, declared, tags.len()));
             }
+            let start = xml.len() - rest.len();
+            let end = xml.len() - after.len();
             tags.push(XmlTag {
                 name: name.to_string(),
                 attributes,
+                span: start..end,
+                inner: end..end,
             });
             rest = after;
         }
     }
     check_text(rest, open.is_empty())?;
-    if let Some((name, _)) = open.last() {
+    if let Some((name, _, _)) = open.last() {
         return Err(format!("`{name}` is not closed"));
     }
     if tags.is_empty() {
@@ -162,7 +181,7 @@ fn check_text(text: &str, outside: bool) -> Result<(), String> {
 }
 
 /// The text with its entity and character references replaced.
-fn decode_references(text: &str) -> Result<String, String> {
+pub(crate) fn decode_references(text: &str) -> Result<String, String> {
     let mut decoded = String::with_capacity(text.len());
     let mut rest = text;
     while let Some(at) = rest.find('&') {
diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index 8cad2df..42268f8 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -7,15 +7,21 @@
 //! - Missing slide references
 //! - Corrupted package structure
 
+use crate::core::package_validation::rels::{rels_source_dir, resolve_rel_target};
+use crate::core::xml_scan::{decode_references, scan_fragment, scan_tags, XmlTag};
 use crate::core::{
-    check_required_parts_with_descriptions, validate_well_formed_xml, ValidationIssue,
+    check_required_parts_with_descriptions, escape_xml, validate_well_formed_xml, ValidationIssue,
     REQUIRED_PARTS_REPAIR,
 };
 use crate::exc::{PptxError, Result};
 use crate::opc::Package;
-use std::collections::HashSet;
+use crate::parts::relationships::RelationshipType;
+use std::ops::Range;
 use std::path::Path;
 
+const PRESENTATION: &str = "ppt/presentation.xml";
+const PRESENTATION_RELS: &str = "ppt/_rels/presentation.xml.rels";
+
 /// Types of issues that can be detected in a PPTX file
 #[derive(Debug, Clone, PartialEq)]
 pub enum RepairIssue {
@@ -221,12 +227,10 @@ impl PptxRepair {
         }
 
         // Attempt to repair each issue
+        let mut attempted = Vec::new();
         for issue in &result.issues_found.clone() {
-            if issue.is_repairable() {
-                match self.repair_issue(issue) {
-                    Ok(()) => result.issues_repaired.push(issue.clone()),
-                    Err(_) => result.issues_unrepaired.push(issue.clone()),
-                }
+            if issue.is_repairable() && self.repair_issue(issue).is_ok() {
+                attempted.push(issue.clone());
             } else {
                 result.issues_unrepaired.push(issue.clone());
             }
@@ -235,6 +239,13 @@ impl PptxRepair {
         // Re-validate to check if repairs were successful
         let remaining_issues = self.validate();
         result.is_valid = remaining_issues.is_empty();
+        for issue in attempted {
+            if remaining_issues.contains(&issue) {
+                result.issues_unrepaired.push(issue);
+            } else {
+                result.issues_repaired.push(issue);
+            }
+        }
 
         result
     }
@@ -287,15 +298,29 @@ impl PptxRepair {
             .collect();
 
         for path in xml_parts {
-            if let Some(content) = self.package.get_part(&path) {
-                let xml_str = String::from_utf8_lossy(content);
-                if let Err(e) = self.validate_xml(&xml_str) {
-                    self.issues.push(RepairIssue::InvalidXml { path, error: e });
-                }
+            let checked = match self.part_text(&path) {
+                Some(xml) => self.validate_xml(xml),
+                None => Err("not UTF-8 text".to_string()),
+            };
+            if let Err(error) = checked {
+                self.issues.push(RepairIssue::InvalidXml { path, error });
             }
         }
     }
 
+    /// The text of a part; `None` when there is no such part or it is not text.
+    fn part_text(&self, path: &str) -> Option<&str> {
+        std::str::from_utf8(self.package.get_part(path)?).ok()
+    }
+
+    /// The elements of a part; none when there is no such part or it is not well-formed.
+    fn part_tags(&self, path: &str) -> Vec<XmlTag> {
+        match self.part_text(path) {
+            Some(xml) => scan_tags(xml).unwrap_or_default(),
+            None => Vec::new(),
+        }
+    }
+
     fn validate_xml(&self, xml: &str) -> std::result::Result<(), String> {
         validate_well_formed_xml(xml).map_err(|e| e.to_string())
     }
@@ -322,35 +347,37 @@ impl PptxRepair {
     }
 
     fn check_rels_file(&mut self, rels_path: &str) {
-        if let Some(content) = self.package.get_part(rels_path) {
-            let xml_str = String::from_utf8_lossy(content);
-
-            // Parse relationships and check targets exist
-            for line in xml_str.lines() {
-                if line.contains("Relationship") && line.contains("Target=")
-                    && let Some(target) = self.extract_attribute(line, "Target") {
-                        let rel_id = self.extract_attribute(line, "Id").unwrap_or_default();
-
-                        // Skip external relationships
-                        if target.starts_with("http://") || target.starts_with("https://") {
-                            continue;
-                        }
-
-                        // Resolve relative path
-                        let full_path = self.resolve_path(rels_path, &target);
+        for (rel, full_path) in self.internal_relationships(rels_path) {
+            if !self.package.has_part(&full_path) {
+                self.issues.push(RepairIssue::BrokenRelationship {
+                    source: rels_path.to_string(),
+                    target: full_path,
+                    rel_id: rel.attr("Id").unwrap_or_default().to_string(),
+                });
+            }
+        }
+    }
 
-                        if !self.package.has_part(&full_path) && !target.contains("..") {
-                            self.issues.push(RepairIssue::BrokenRelationship {
-                                source: rels_path.to_string(),
-                                target: full_path,
-                                rel_id,
-                            });
-                        }
-                    }
+    /// The relationships of a `.rels` part to parts of the package, with the path of each.
+    fn internal_relationships(&self, rels_path: &str) -> Vec<(XmlTag, String)> {
+        let mut found = Vec::new();
+        for tag in self.part_tags(rels_path) {
+            if tag.name != "Relationship" || tag.attr("TargetMode") == Some("External") {
+                continue;
+            }
+            let Some(target) = tag.attr("Target") else {
+                continue;
+            };
+            if target.starts_with("http://") || target.starts_with("https://") {
+                continue;
             }
+            let full_path = self.resolve_path(rels_path, target);
+            found.push((tag, full_path));
         }
+        found
     }
 
+    #[cfg(test)]
     fn extract_attribute(&self, line: &str, attr: &str) -> Option<String> {
         let pattern = format!("{}=\"", attr);
         if let Some(start) = line.find(&pattern) {
@@ -363,56 +390,23 @@ impl PptxRepair {
     }
 
     fn resolve_path(&self, rels_path: &str, target: &str) -> String {
-        if let Some(stripped) = target.strip_prefix('/') {
-            return stripped.to_string();
-        }
-
-        // Get directory of rels file
-        let rels_dir = rels_path.rsplit_once('/').map(|(d, _)| d).unwrap_or("");
-        let base_dir = rels_dir
-            .replace("_rels", "")
-            .trim_end_matches('/')
-            .to_string();
-
-        if target.starts_with("../") {
-            // Go up one directory
-            let parent = base_dir.rsplit_once('/').map(|(d, _)| d).unwrap_or("");
-            format!("{}/{}", parent, target.trim_start_matches("../"))
-        } else {
-            if base_dir.is_empty() {
-                target.to_string()
-            } else {
-                format!("{}/{}", base_dir, target)
-            }
-        }
+        resolve_rel_target(&rels_source_dir(rels_path), target)
     }
 
     fn check_slide_references(&mut self) {
-        // Get slides from presentation.xml.rels
-        let mut referenced_slides: HashSet<String> = HashSet::new();
-        let slide_rel_type = crate::parts::relationships::RelationshipType::Slide.uri();
-
-        if let Some(rels_content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(rels_content);
-            for line in xml_str.lines() {
-                if let Some(type_attr) = self.extract_attribute(line, "Type") {
-                    if type_attr != slide_rel_type {
-                        continue;
-                    }
-                    if let Some(target) = self.extract_attribute(line, "Target") {
-                        let full_path = if let Some(stripped) = target.strip_prefix('/') {
-                            stripped.to_string()
-                        } else {
-                            format!("ppt/{}", target)
-                        };
-                        referenced_slides.insert(full_path);
-                    }
-                }
+        let related = self.slide_relationships();
+
+        // Check for orphan references (referenced but don't exist)
+        for (_, slide_path) in &related {
+            if !self.package.has_part(slide_path) {
+                self.issues.push(RepairIssue::OrphanSlide {
+                    slide_path: slide_path.clone(),
+                });
             }
         }
 
-        // Get actual slide files
-        let actual_slides: HashSet<String> = self
+        // Check for unreferenced slides, in the order of their numbers
+        let mut slides: Vec<String> = self
             .package
             .part_paths()
             .iter()
@@ -421,47 +415,60 @@ impl PptxRepair {
             })
             .map(|s| s.to_string())
             .collect();
-
-        // Check for orphan references (referenced but don't exist)
-        for slide in &referenced_slides {
-            if !actual_slides.contains(slide) {
-                self.issues.push(RepairIssue::OrphanSlide {
-                    slide_path: slide.clone(),
-                });
+        slides.sort_by(|a, b| (a.len(), a).cmp(&(b.len(), b)));
+
+        let presentation = self.part_tags(PRESENTATION);
+        for slide_path in slides {
+            let referenced = related
+                .iter()
+                .any(|(id, path)| *path == slide_path && is_listed(&presentation, id));
+            if !referenced {
+                self.issues
+                    .push(RepairIssue::MissingSlideReference { slide_path });
             }
         }
+    }
 
-        // Check for unreferenced slides
-        for slide in &actual_slides {
-            if !referenced_slides.contains(slide) {
-                self.issues.push(RepairIssue::MissingSlideReference {
-                    slide_path: slide.clone(),
-                });
+    /// The id and path of each slide that the presentation is related to.
+    fn slide_relationships(&self) -> Vec<(String, String)> {
+        let mut slides = Vec::new();
+        for (rel, path) in self.internal_relationships(PRESENTATION_RELS) {
+            let rel_type = rel.attr("Type").unwrap_or_default();
+            if RelationshipType::from_uri(rel_type) == RelationshipType::Slide {
+                slides.push((rel.attr("Id").unwrap_or_default().to_string(), path));
             }
         }
+        slides
     }
 
     fn check_content_types(&mut self) {
-        if let Some(content) = self.package.get_part("[Content_Types].xml") {
-            let xml_str = String::from_utf8_lossy(content);
-
-            // Check that all parts have content types
-            let parts = self.package.part_paths();
-            for part in parts {
-                if part == "[Content_Types].xml" {
-                    continue;
-                }
+        let tags = self.part_tags("[Content_Types].xml");
+        if tags.is_empty() {
+            return;
+        }
 
-                // Check if part has Override or matches Default
-                let has_override = xml_str.contains(&format!("PartName=\"/{}\"", part));
-                let extension = part.rsplit('.').next().unwrap_or("");
-                let has_default = xml_str.contains(&format!("Extension=\"{}\"", extension));
+        // Check that all parts have content types
+        for part in self.package.part_paths() {
+            if part == "[Content_Types].xml" || part.ends_with(".rels") {
+                continue;
+            }
 
-                if !has_override && !has_default && !part.ends_with(".rels") {
-                    self.issues.push(RepairIssue::InvalidContentType {
-                        path: part.to_string(),
-                    });
+            // Check if part has Override or matches Default
+            let extension = part.rsplit('.').next().unwrap_or("");
+            let declared = tags.iter().any(|tag| match tag.name.as_str() {
+                "Override" => {
+                    tag.attr("PartName").and_then(|name| name.strip_prefix('/')) == Some(part)
                 }
+                "Default" => tag
+                    .attr("Extension")
+                    .is_some_and(|default| default.eq_ignore_ascii_case(extension)),
+                _ => false,
+            });
+
+            if !declared {
+                self.issues.push(RepairIssue::InvalidContentType {
+                    path: part.to_string(),
+                });
             }
         }
     }
@@ -514,76 +521,42 @@ impl PptxRepair {
     }
 
     fn repair_invalid_xml(&mut self, path: &str) -> Result<()> {
-        if let Some(content) = self.package.get_part(path) {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-
-            // Try to repair using anyrepair for JSON-like structures
-            // For XML, we try basic fixes
-            let repaired = self.attempt_xml_repair(&xml_str);
+        let Some(xml) = self.part_text(path) else {
+            return Err(PptxError::InvalidXml(format!("'{}' is not text", path)));
+        };
 
-            self.package
-                .add_part(path.to_string(), repaired.into_bytes());
-        }
+        // A part the basic fixes do not mend stays as it is
+        let repaired = self.attempt_xml_repair(xml);
+        validate_well_formed_xml(&repaired)?;
+        self.package
+            .add_part(path.to_string(), repaired.into_bytes());
         Ok(())
     }
 
     fn attempt_xml_repair(&self, xml: &str) -> String {
-        let mut repaired = xml.to_string();
+        let xml = xml.strip_prefix('\u{feff}').unwrap_or(xml);
+        let mut repaired = String::new();
 
         // Ensure XML declaration
-        if !repaired.trim().starts_with("<?xml") {
-            repaired = format!(
-                "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n{}",
-                repaired
+        if !xml.trim().starts_with("<?xml") {
+            repaired.push_str(
+                "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n",
             );
         }
 
-        // Fix common issues
-        // Replace bare & with &amp; (but not existing entities)
-        // Since Rust regex doesn't support look-ahead, we use a different approach
-        let mut result = String::new();
-        let mut chars = repaired.chars().peekable();
-        while let Some(ch) = chars.next() {
-            if ch == '&' {
-                // Check if this is already an entity
-                let mut entity = String::from("&");
-                let mut is_entity = false;
-                let mut temp_chars: Vec<char> = Vec::new();
-
-                while let Some(&next) = chars.peek() {
-                    if next == ';' {
-                        entity.push(chars.next().unwrap());
-                        is_entity = entity == "&amp;"
-                            || entity == "&lt;"
-                            || entity == "&gt;"
-                            || entity == "&quot;"
-                            || entity == "&apos;"
-                            || entity.starts_with("&#");
-                        break;
-                    } else if next.is_alphanumeric() || next == '#' || next == 'x' {
-                        temp_chars.push(chars.next().unwrap());
-                        entity.push(*temp_chars.last().unwrap());
-                    } else {
-                        break;
-                    }
-                    if entity.len() > 10 {
-                        break;
-                    }
-                }
-
-                if is_entity {
-                    result.push_str(&entity);
-                } else {
-                    result.push_str("&amp;");
-                    for c in temp_chars {
-                        result.push(c);
-                    }
-                }
-            } else {
-                result.push(ch);
-            }
+        // Replace bare & with &amp; (but not existing references)
+        let mut rest = xml;
+        while let Some(at) = rest.find('&') {
+            let after = &rest[at + 1..];
+            let is_reference = match after.split_once(';') {
+                Some((name, _)) => decode_references(&format!("&{};", name)).is_ok(),
+                None => false,
+            };
+            repaired.push_str(&rest[..at]);
+            repaired.push_str(if is_reference { "&" } else { "&amp;" });
+            rest = after;
         }
-        repaired = result;
+        repaired.push_str(rest);
 
         repaired
     }
@@ -591,175 +564,188 @@ impl PptxRepair {
     fn repair_broken_relationship(
         &mut self,
         source: &str,
-        _target: &str,
+        target: &str,
         rel_id: &str,
     ) -> Result<()> {
-        // Remove the broken relationship from the rels file
-        if let Some(content) = self.package.get_part(source) {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-
-            // Remove the relationship line with this ID
-            let pattern = format!("Id=\"{}\"", rel_id);
-            let lines: Vec<&str> = xml_str
-                .lines()
-                .filter(|line| !line.contains(&pattern))
-                .collect();
+        self.remove_relationships(source, target, Some(rel_id))
+    }
 
-            let repaired = lines.join("\n");
-            self.package
-                .add_part(source.to_string(), repaired.into_bytes());
+    /// Remove the relationships of `rels_path` to `target`: those with the given id, or all.
+    fn remove_relationships(
+        &mut self,
+        rels_path: &str,
+        target: &str,
+        rel_id: Option<&str>,
+    ) -> Result<()> {
+        let mut spans = Vec::new();
+        let mut removed = Vec::new();
+        for (rel, path) in self.internal_relationships(rels_path) {
+            let id = rel.attr("Id").unwrap_or_default();
+            if path == target && rel_id.is_none_or(|wanted| wanted == id) {
+                removed.push(id.to_string());
+                spans.push(rel.span);
+            }
+        }
+        self.remove_spans(rels_path, &spans);
+
+        // A slide without a relationship leaves the slide list too
+        if rels_path == PRESENTATION_RELS {
+            let mut spans = Vec::new();
+            for tag in self.part_tags(PRESENTATION) {
+                if tag.name == "p:sldId"
+                    && removed.iter().any(|id| tag.attr("r:id") == Some(id))
+                {
+                    spans.push(tag.span);
+                }
+            }
+            self.remove_spans(PRESENTATION, &spans);
         }
         Ok(())
     }
 
-    fn repair_missing_slide_reference(&mut self, slide_path: &str) -> Result<()> {
-        // Add the slide to presentation.xml.rels
-        if let Some(content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-
-            // Find the highest rId
-            let max_id = self.find_max_rel_id(&xml_str);
-            let new_id = format!("rId{}", max_id + 1);
+    /// Remove stretches of the text of a part, given in order.
+    fn remove_spans(&mut self, path: &str, spans: &[Range<usize>]) {
+        if spans.is_empty() {
+            return;
+        }
+        if let Some(xml) = self.part_text(path) {
+            let mut kept = String::new();
+            let mut from = 0;
+            for span in spans {
+                if span.start >= from {
+                    kept.push_str(&xml[from..span.start]);
+                    from = span.end;
+                }
+            }
+            kept.push_str(&xml[from..]);
+            self.package.add_part(path.to_string(), kept.into_bytes());
+        }
+    }
 
-            // Extract slide number from path
-            let slide_target = slide_path.replace("ppt/", "");
+    fn repair_missing_slide_reference(&mut self, slide_path: &str) -> Result<()> {
+        for (rel_id, path) in self.slide_relationships() {
+            if path == slide_path {
+                return self.add_slide_to_presentation(&rel_id);
+            }
+        }
+        let Some(rels) = self.part_text(PRESENTATION_RELS) else {
+            return Err(PptxError::NotFound(PRESENTATION_RELS.to_string()));
+        };
 
-            // Add new relationship before </Relationships>
-            let new_rel = format!(
-                "  <Relationship Id=\"{}\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide\" Target=\"{}\"/>",
-                new_id, slide_target
-            );
+        // Find the highest rId
+        let new_id = match self.find_max_rel_id(rels).checked_add(1) {
+            Some(id) => format!("rId{}", id),
+            None => return Err(PptxError::Generic("No relationship id is left".to_string())),
+        };
 
-            let repaired = xml_str.replace(
-                "</Relationships>",
-                &format!("{}\n</Relationships>", new_rel),
-            );
-            self.package.add_part(
-                "ppt/_rels/presentation.xml.rels".to_string(),
-                repaired.into_bytes(),
-            );
+        let new_rel = format!(
+            "  <Relationship Id=\"{}\" Type=\"{}\" Target=\"{}\"/>",
+            new_id,
+            RelationshipType::Slide.uri(),
+            escape_xml(slide_path.strip_prefix("ppt/").unwrap_or(slide_path))
+        );
+        let rels = insert_last(rels, "Relationships", &new_rel)?;
 
-            // Also update presentation.xml sldIdLst
-            self.add_slide_to_presentation(&new_id)?;
-        }
+        // Also update presentation.xml sldIdLst
+        self.add_slide_to_presentation(&new_id)?;
+        self.package
+            .add_part(PRESENTATION_RELS.to_string(), rels.into_bytes());
         Ok(())
     }
 
     fn add_slide_to_presentation(&mut self, rel_id: &str) -> Result<()> {
-        if let Some(content) = self.package.get_part("ppt/presentation.xml") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-
-            // Find highest slide ID
-            let max_slide_id = self.find_max_slide_id(&xml_str);
-            let new_slide_id = max_slide_id + 1;
+        let Some(xml) = self.part_text(PRESENTATION) else {
+            return Err(PptxError::NotFound(PRESENTATION.to_string()));
+        };
 
-            // Add to sldIdLst
-            let new_entry = format!("<p:sldId id=\"{}\" r:id=\"{}\"/>", new_slide_id, rel_id);
+        // Slide ids lie between 256 and 2^31
+        let new_slide_id = self.find_max_slide_id(xml).max(255).saturating_add(1);
+        if new_slide_id >= 0x8000_0000 {
+            return Err(PptxError::Generic("No slide id is left".to_string()));
+        }
 
-            let repaired = if xml_str.contains("</p:sldIdLst>") {
-                xml_str.replace("</p:sldIdLst>", &format!("{}\n</p:sldIdLst>", new_entry))
-            } else if xml_str.contains("<p:sldIdLst/>") {
-                xml_str.replace(
-                    "<p:sldIdLst/>",
-                    &format!("<p:sldIdLst>{}</p:sldIdLst>", new_entry),
-                )
-            } else {
-                // Insert sldIdLst after sldMasterIdLst
-                xml_str.replace(
-                    "</p:sldMasterIdLst>",
-                    &format!(
-                        "</p:sldMasterIdLst>\n<p:sldIdLst>{}</p:sldIdLst>",
-                        new_entry
-                    ),
+        let new_entry = format!("<p:sldId id=\"{}\" r:id=\"{}\"/>", new_slide_id, escape_xml(rel_id));
+        let repaired = match insert_last(xml, "p:sldIdLst", &new_entry) {
+            Ok(repaired) => repaired,
+            // Insert sldIdLst after the lists of masters
+            Err(_) => {
+                let mut at = None;
+                for tag in self.part_tags(PRESENTATION) {
+                    match tag.name.as_str() {
+                        "p:presentation" => at = Some(tag.inner.start),
+                        "p:sldMasterIdLst" | "p:notesMasterIdLst" | "p:handoutMasterIdLst" => {
+                            at = Some(tag.span.end)
+                        }
+                        _ => {}
+                    }
+                }
+                let Some(at) = at else {
+                    return Err(PptxError::InvalidXml("not a presentation".to_string()));
+                };
+                format!(
+                    "{}\n<p:sldIdLst>{}</p:sldIdLst>{}",
+                    &xml[..at],
+                    new_entry,
+                    &xml[at..]
                 )
-            };
+            }
+        };
 
-            self.package
-                .add_part("ppt/presentation.xml".to_string(), repaired.into_bytes());
-        }
+        self.package
+            .add_part(PRESENTATION.to_string(), repaired.into_bytes());
         Ok(())
     }
 
     fn find_max_rel_id(&self, xml: &str) -> u32 {
-        // Simple string parsing instead of regex for: Id="rId(\d+)"
         let mut max_id = 0u32;
-        let mut search_start = 0;
-
-        while let Some(pos) = xml[search_start..].find("Id=\"rId") {
-            let absolute_pos = search_start + pos;
-            let start = absolute_pos + 7; // Skip "Id=\"rId"
-            if let Some(end_pos) = xml[start..].find('"') {
-                let num_str = &xml[start..start + end_pos];
-                if let Ok(id) = num_str.parse::<u32>() {
-                    max_id = max_id.max(id);
-                }
-                search_start = start + end_pos + 1;
-            } else {
-                break;
+        for tag in scan_tags(xml).unwrap_or_default() {
+            let id = match tag.attr("Id") {
+                Some(id) if tag.name == "Relationship" => id,
+                _ => continue,
+            };
+            if let Some(Ok(id)) = id.strip_prefix("rId").map(|id| id.parse::<u32>()) {
+                max_id = max_id.max(id);
             }
         }
         max_id
     }
 
     fn find_max_slide_id(&self, xml: &str) -> u32 {
-        // Simple string parsing instead of regex for: <p:sldId id="(\d+)"
         let mut max_id = 0u32;
-        let mut search_start = 0;
-
-        while let Some(pos) = xml[search_start..].find("<p:sldId id=\"") {
-            let absolute_pos = search_start + pos;
-            let start = absolute_pos + 13; // Skip "<p:sldId id=\""
-            if let Some(end_pos) = xml[start..].find('"') {
-                let num_str = &xml[start..start + end_pos];
-                if let Ok(id) = num_str.parse::<u32>() {
-                    max_id = max_id.max(id);
-                }
-                search_start = start + end_pos + 1;
-            } else {
-                break;
+        for tag in scan_fragment(xml, &["p", "r"]).unwrap_or_default() {
+            let id = match tag.attr("id") {
+                Some(id) if tag.name == "p:sldId" => id,
+                _ => continue,
+            };
+            if let Ok(id) = id.parse::<u32>() {
+                max_id = max_id.max(id);
             }
         }
         max_id
     }
 
     fn repair_orphan_slide(&mut self, slide_path: &str) -> Result<()> {
-        // Remove the orphan reference from presentation.xml.rels
-        if let Some(content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-            let slide_target = slide_path.replace("ppt/", "");
-
-            // Find and remove the relationship
-            let lines: Vec<&str> = xml_str
-                .lines()
-                .filter(|line| !line.contains(&format!("Target=\"{}\"", slide_target)))
-                .collect();
-
-            let repaired = lines.join("\n");
-            self.package.add_part(
-                "ppt/_rels/presentation.xml.rels".to_string(),
-                repaired.into_bytes(),
-            );
-        }
-        Ok(())
+        self.remove_relationships(PRESENTATION_RELS, slide_path, None)
     }
 
     fn repair_invalid_content_type(&mut self, path: &str) -> Result<()> {
-        if let Some(content) = self.package.get_part("[Content_Types].xml") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
+        let Some(xml) = self.part_text("[Content_Types].xml") else {
+            return Err(PptxError::NotFound("[Content_Types].xml".to_string()));
+        };
 
-            // Determine content type based on path
-            let content_type = self.infer_content_type(path);
+        // Determine content type based on path
+        let content_type = self.infer_content_type(path);
 
-            // Add Override entry
-            let new_override = format!(
-                "  <Override PartName=\"/{}\" ContentType=\"{}\"/>",
-                path, content_type
-            );
+        // Add Override entry
+        let new_override = format!(
+            "  <Override PartName=\"/{}\" ContentType=\"{}\"/>",
+            escape_xml(path),
+            content_type
+        );
 
-            let repaired = xml_str.replace("</Types>", &format!("{}\n</Types>", new_override));
-            self.package
-                .add_part("[Content_Types].xml".to_string(), repaired.into_bytes());
-        }
+        let repaired = insert_last(xml, "Types", &new_override)?;
+        self.package
+            .add_part("[Content_Types].xml".to_string(), repaired.into_bytes());
         Ok(())
     }
 
@@ -859,6 +845,14 @@ impl PptxRepair {
     }
 
     fn generate_presentation_xml(&self) -> String {
+        let mut slides = String::new();
+        for (i, (rel_id, _)) in self.slide_relationships().iter().enumerate() {
+            slides.push_str(&format!(
+                "\n    <p:sldId id=\"{}\" r:id=\"{}\"/>",
+                256 + i,
+                escape_xml(rel_id)
+            ));
+        }
         r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <p:presentation xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" xmlns:p="http://schemas.openxmlformats.org/presentationml/2006/main">
   <p:sldMasterIdLst>
@@ -867,7 +861,11 @@ impl PptxRepair {
   <p:sldIdLst/>
   <p:sldSz cx="9144000" cy="6858000"/>
   <p:notesSz cx="6858000" cy="9144000"/>
-</p:presentation>"#.to_string()
+</p:presentation>"#
+            .replace(
+                "<p:sldIdLst/>",
+                &format!("<p:sldIdLst>{}\n  </p:sldIdLst>", slides),
+            )
     }
 
     fn generate_presentation_rels(&self) -> String {
@@ -882,6 +880,30 @@ impl PptxRepair {
     }
 }
 
+/// Whether the slide list of a presentation has the relationship (of what is not one: always).
+fn is_listed(presentation: &[XmlTag], rel_id: &str) -> bool {
+    !presentation.iter().any(|tag| tag.name == "p:presentation")
+        || presentation
+            .iter()
+            .any(|tag| tag.name == "p:sldId" && tag.attr("r:id") == Some(rel_id))
+}
+
+/// `xml` with `child` put last in the first element of the given name.
+fn insert_last(xml: &str, name: &str, child: &str) -> Result<String> {
+    let tags = scan_tags(xml).map_err(PptxError::InvalidXml)?;
+    let Some(tag) = tags.into_iter().find(|tag| tag.name == name) else {
+        return Err(PptxError::InvalidXml(format!("no {} element", name)));
+    };
+    let (before, after) = xml.split_at(tag.inner.end);
+    Ok(if tag.inner.end < tag.span.end {
+        format!("{}{}\n{}", before, child, after)
+    } else {
+        // An empty-element tag becomes a start tag
+        let before = before.strip_suffix("/>").unwrap_or(before);
+        format!("{}>{}</{}>{}", before, child, name, after)
+    })
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 4bcbe98d911594f31c36a52fdf47aeb92403d6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:39 +0000
Subject: [PATCH 36/39] fix: a package that grows in compression is reported,
 and compression in memory uses no shared files

---
 src/opc/compress.rs | 84 +++++++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 37 deletions(-)

diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index bb01efb..eb2bd2f 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -209,71 +209,81 @@ pub fn compress_pptx<P: AsRef<Path>, Q: AsRef<Path>>(
 
     let original_size = std::fs::metadata(input_path.as_ref())?.len() as usize;
 
+    let unused_media_removed = compress_package(&mut package, options)?;
+
+    // Save compressed package
+    package.save(output_path.as_ref())?;
+
+    let compressed_size = std::fs::metadata(output_path.as_ref())?.len() as usize;
+
+    Ok(compression_result(original_size, compressed_size, unused_media_removed, options))
+}
+
+/// Compress a PPTX in memory
+pub fn compress_pptx_in_memory(
+    data: &[u8],
+    options: &CompressionOptions,
+) -> Result<(Vec<u8>, CompressionResult)> {
+    let mut package = Package::open_reader(std::io::Cursor::new(data))?;
+
+    let unused_media_removed = compress_package(&mut package, options)?;
+
+    let mut output = std::io::Cursor::new(Vec::new());
+    package.save_writer(&mut output)?;
+    let output_data = output.into_inner();
+    let result = compression_result(data.len(), output_data.len(), unused_media_removed, options);
+
+    Ok((output_data, result))
+}
+
+/// Apply the options to a package, returning the number of media files removed
+fn compress_package(package: &mut Package, options: &CompressionOptions) -> Result<usize> {
     let mut unused_media_removed = 0;
-    let images_compressed = 0;
 
     // Remove unused media files
     if options.remove_unused_media {
-        unused_media_removed = remove_unused_media(&mut package)?;
+        unused_media_removed = remove_unused_media(package)?;
     }
 
     // Remove properties if requested
     if options.remove_properties {
-        remove_document_properties(&mut package);
+        remove_document_properties(package);
     }
 
     // Remove notes if requested
     if options.remove_notes {
-        remove_notes_slides(&mut package)?;
+        remove_notes_slides(package)?;
     }
 
     // Optimize XML
     if options.optimize_xml {
-        optimize_xml_content(&mut package)?;
+        optimize_xml_content(package)?;
     }
 
-    // Save compressed package
-    package.save(output_path.as_ref())?;
+    Ok(unused_media_removed)
+}
 
-    let compressed_size = std::fs::metadata(output_path.as_ref())?.len() as usize;
+fn compression_result(
+    original_size: usize,
+    compressed_size: usize,
+    unused_media_removed: usize,
+    options: &CompressionOptions,
+) -> CompressionResult {
+    // A small package may grow, so the difference can be negative
     let reduction_percent = if original_size > 0 {
-        ((original_size - compressed_size) as f64 / original_size as f64) * 100.0
+        ((original_size as f64 - compressed_size as f64) / original_size as f64) * 100.0
     } else {
         0.0
     };
 
-    let target_achieved = options.target_size == 0 || compressed_size <= options.target_size;
-
-    Ok(CompressionResult {
+    CompressionResult {
         original_size,
         compressed_size,
         reduction_percent,
         unused_media_removed,
-        images_compressed,
-        target_achieved,
-    })
-}
-
-/// Compress a PPTX in memory
-pub fn compress_pptx_in_memory(
-    data: &[u8],
-    options: &CompressionOptions,
-) -> Result<(Vec<u8>, CompressionResult)> {
-    // Write to temp file
-    let temp_dir = std::env::temp_dir();
-    let temp_input = temp_dir.join("compress_input.pptx");
-    let temp_output = temp_dir.join("compress_output.pptx");
-
-    std::fs::write(&temp_input, data)?;
-
-    let result = compress_pptx(&temp_input, &temp_output, options)?;
-    let output_data = std::fs::read(&temp_output)?;
-
-    // Cleanup
-    let _ = std::fs::remove_file(&temp_input);
-    let _ = std::fs::remove_file(&temp_output);
-
-    Ok((output_data, result))
+        images_compressed: 0,
+        target_achieved: options.target_size == 0 || compressed_size <= options.target_size,
+    }
 }
 
 /// Remove unused media files from package
-- 
2.43.0


From 415fc495e6a60b2ef8672fe419fe34134d180b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:11 +0000
Subject: [PATCH 37/39] fix: compression keeps media in use and text, and
 leaves no reference to parts it removes

---
 src/opc/compress.rs | 249 ++++++++++++++++++++++++++++----------------
 1 file changed, 160 insertions(+), 89 deletions(-)

diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index eb2bd2f..b6112dd 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -7,8 +7,11 @@
 //! - Optimize XML (remove unnecessary whitespace)
 
 use super::Package;
+use crate::core::package_validation::rels::{rels_source_dir, resolve_rel_target};
+use crate::core::xml_scan::{XmlTag, scan_tags};
 use crate::exc::Result;
 use std::collections::HashSet;
+use std::ops::Range;
 use std::path::Path;
 
 /// Compression level options
@@ -209,7 +212,7 @@ pub fn compress_pptx<P: AsRef<Path>, Q: AsRef<Path>>(
 
     let original_size = std::fs::metadata(input_path.as_ref())?.len() as usize;
 
-    let unused_media_removed = compress_package(&mut package, options)?;
+    let unused_media_removed = compress_package(&mut package, options);
 
     // Save compressed package
     package.save(output_path.as_ref())?;
@@ -226,7 +229,7 @@ pub fn compress_pptx_in_memory(
 ) -> Result<(Vec<u8>, CompressionResult)> {
     let mut package = Package::open_reader(std::io::Cursor::new(data))?;
 
-    let unused_media_removed = compress_package(&mut package, options)?;
+    let unused_media_removed = compress_package(&mut package, options);
 
     let mut output = std::io::Cursor::new(Vec::new());
     package.save_writer(&mut output)?;
@@ -237,12 +240,12 @@ pub fn compress_pptx_in_memory(
 }
 
 /// Apply the options to a package, returning the number of media files removed
-fn compress_package(package: &mut Package, options: &CompressionOptions) -> Result<usize> {
+fn compress_package(package: &mut Package, options: &CompressionOptions) -> usize {
     let mut unused_media_removed = 0;
 
     // Remove unused media files
     if options.remove_unused_media {
-        unused_media_removed = remove_unused_media(package)?;
+        unused_media_removed = remove_unused_media(package);
     }
 
     // Remove properties if requested
@@ -252,15 +255,15 @@ fn compress_package(package: &mut Package, options: &CompressionOptions) -> Resu
 
     // Remove notes if requested
     if options.remove_notes {
-        remove_notes_slides(package)?;
+        remove_notes_slides(package);
     }
 
     // Optimize XML
     if options.optimize_xml {
-        optimize_xml_content(package)?;
+        optimize_xml_content(package);
     }
 
-    Ok(unused_media_removed)
+    unused_media_removed
 }
 
 fn compression_result(
@@ -286,36 +289,38 @@ fn compression_result(
     }
 }
 
-/// Remove unused media files from package
-fn remove_unused_media(package: &mut Package) -> Result<usize> {
-    let media_paths: Vec<String> = package
-        .part_paths()
-        .iter()
-        .filter(|p| p.starts_with("ppt/media/"))
-        .map(|s| s.to_string())
-        .collect();
+/// Text of a part, if it has one
+fn part_text<'a>(package: &'a Package, path: &str) -> Option<&'a str> {
+    std::str::from_utf8(package.get_part(path)?).ok()
+}
 
+/// Remove the media files no relationship leads to
+fn remove_unused_media(package: &mut Package) -> usize {
     let mut referenced = HashSet::new();
-    let mut removed = 0;
+    let mut media_paths = Vec::new();
 
-    // Find all media references in slide files
     for path in package.part_paths() {
-        if path.starts_with("ppt/slides/slide") && path.ends_with(".xml")
-            && let Some(content) = package.get_part_string(path) {
-                // Look for media references like rId5, image1.png, etc.
-                for media_path in &media_paths {
-                    let filename = Path::new(media_path)
-                        .file_name()
-                        .and_then(|n| n.to_str())
-                        .unwrap_or("");
-                    if content.contains(filename) || content.contains(&media_path[4..]) {
-                        referenced.insert(media_path.clone());
-                    }
+        if path.ends_with(".rels") {
+            // What a damaged part uses is unknown, so everything is kept
+            let Some(xml) = part_text(package, path) else {
+                return 0;
+            };
+            let Ok(tags) = scan_tags(xml) else {
+                return 0;
+            };
+            let base = rels_source_dir(path);
+            for tag in &tags {
+                if let Some(target) = internal_target(tag, &base) {
+                    referenced.insert(target);
                 }
             }
+        } else if path.starts_with("ppt/media/") {
+            media_paths.push(path.to_string());
+        }
     }
 
     // Remove unreferenced media
+    let mut removed = 0;
     for media_path in media_paths {
         if !referenced.contains(&media_path) {
             package.remove_part(&media_path);
@@ -323,42 +328,96 @@ fn remove_unused_media(package: &mut Package) -> Result<usize> {
         }
     }
 
-    Ok(removed)
+    removed
+}
+
+/// The part a relationship leads to, None for external ones
+fn internal_target(tag: &XmlTag, base: &str) -> Option<String> {
+    if tag.attr("TargetMode") == Some("External") {
+        return None;
+    }
+    tag.attr("Target").map(|target| resolve_rel_target(base, target))
 }
 
 /// Remove document properties
 fn remove_document_properties(package: &mut Package) {
-    // Remove core properties
-    package.remove_part("docProps/core.xml");
-    // Remove app properties
-    package.remove_part("docProps/app.xml");
-    // Remove custom properties
-    package.remove_part("docProps/custom.xml");
-    // Remove thumbnail
-    package.remove_part("docProps/thumbnail.jpeg");
+    let properties = [
+        "docProps/core.xml",
+        "docProps/app.xml",
+        "docProps/custom.xml",
+        "docProps/thumbnail.jpeg",
+    ];
+    let removed: Vec<String> = properties.iter().map(|s| s.to_string()).collect();
+    remove_parts(package, &removed);
 }
 
 /// Remove notes slides
-fn remove_notes_slides(package: &mut Package) -> Result<()> {
-    let notes_paths: Vec<String> = package
+fn remove_notes_slides(package: &mut Package) {
+    // Their own relationships lie in the same directory
+    let removed: Vec<String> = package
         .part_paths()
         .iter()
         .filter(|p| p.starts_with("ppt/notesSlides/"))
         .map(|s| s.to_string())
         .collect();
+    remove_parts(package, &removed);
+}
 
-    for path in notes_paths {
-        package.remove_part(&path);
-        // Also remove relationships
-        let rels_path = path.replace("notesSlides/", "notesSlides/_rels/") + ".rels";
-        package.remove_part(&rels_path);
+/// Remove parts together with the relationships leading to them and their content types
+fn remove_parts(package: &mut Package, removed: &[String]) {
+    for path in removed {
+        package.remove_part(path);
+    }
+
+    let paths: Vec<String> = package.part_paths().iter().map(|s| s.to_string()).collect();
+    for path in paths {
+        if path == "[Content_Types].xml" || path.ends_with(".rels") {
+            let Some(xml) = part_text(package, &path) else {
+                continue;
+            };
+            let base = rels_source_dir(&path);
+            let mut spans = Vec::new();
+            for tag in scan_tags(xml).unwrap_or_default() {
+                if leads_to(&tag, &base, removed) {
+                    spans.push(tag.span);
+                }
+            }
+            if !spans.is_empty() {
+                let kept = without_spans(xml, &spans);
+                package.add_part(path, kept.into_bytes());
+            }
+        }
     }
+}
 
-    Ok(())
+/// Whether an element is a relationship to or the content type of one of the parts
+fn leads_to(tag: &XmlTag, base: &str, parts: &[String]) -> bool {
+    match tag.name.as_str() {
+        "Relationship" => internal_target(tag, base).is_some_and(|target| parts.contains(&target)),
+        "Override" => match tag.attr("PartName") {
+            Some(name) => parts.iter().any(|part| name.strip_prefix('/') == Some(part)),
+            None => false,
+        },
+        _ => false,
+    }
+}
+
+/// The text without some stretches of it, given in order
+fn without_spans(xml: &str, spans: &[Range<usize>]) -> String {
+    let mut kept = String::with_capacity(xml.len());
+    let mut from = 0;
+    for span in spans {
+        if span.start >= from {
+            kept.push_str(&xml[from..span.start]);
+            from = span.end;
+        }
+    }
+    kept.push_str(&xml[from..]);
+    kept
 }
 
 /// Optimize XML content (minimize whitespace)
-fn optimize_xml_content(package: &mut Package) -> Result<()> {
+fn optimize_xml_content(package: &mut Package) {
     let xml_paths: Vec<String> = package
         .part_paths()
         .iter()
@@ -367,59 +426,71 @@ fn optimize_xml_content(package: &mut Package) -> Result<()> {
         .collect();
 
     for path in xml_paths {
-        if let Some(content) = package.get_part_string(&path) {
-            let optimized = minimize_xml(&content);
+        if let Some(content) = part_text(package, &path) {
+            let optimized = minimize_xml(content);
             package.add_part(path, optimized.into_bytes());
         }
     }
-
-    Ok(())
 }
 
-/// Minimize XML by removing unnecessary whitespace
+/// Minimize XML by removing the whitespace that lays out elements, never text
 fn minimize_xml(xml: &str) -> String {
-    let mut result = String::with_capacity(xml.len());
-    let mut in_tag = false;
-    let mut in_string = false;
-    let mut prev_char = ' ';
-
-    for ch in xml.chars() {
-        match ch {
-            '"' if !in_tag => {
-                in_string = !in_string;
-                result.push(ch);
-            }
-            '"' if in_tag => {
-                in_string = !in_string;
-                result.push(ch);
-            }
-            '<' if !in_string => {
-                in_tag = true;
-                // Remove whitespace before tag
-                if (prev_char == ' ' || prev_char == '\n' || prev_char == '\t')
-                    && !result.is_empty() {
-                        result.pop();
-                    }
-                result.push(ch);
-            }
-            '>' if !in_string => {
-                in_tag = false;
-                result.push(ch);
-            }
-            ' ' | '\n' | '\t' | '\r' if !in_tag && !in_string => {
-                // Skip whitespace between tags
-                if prev_char != ' ' {
-                    result.push(' ');
-                }
-            }
-            _ => {
-                result.push(ch);
+    let Ok(tags) = scan_tags(xml) else {
+        return xml.to_string();
+    };
+    let mut layout = Vec::new();
+    if let Some(root) = tags.first() {
+        let prolog = xml[..root.span.start].trim_end_matches(is_xml_space);
+        layout.push(prolog.len()..root.span.start);
+        if is_blank(&xml[root.span.end..]) {
+            layout.push(root.span.end..xml.len());
+        }
+    }
+
+    let mut preserved = 0;
+
+    for (index, tag) in tags.iter().enumerate() {
+        if tag.attr("xml:space") == Some("preserve") && tag.span.end > preserved {
+            preserved = tag.span.end;
+        }
+        if tag.span.start >= preserved {
+            let gaps = child_gaps(tag, &tags[index + 1..]);
+            if gaps.iter().all(|gap| is_blank(&xml[gap.start..gap.end])) {
+                layout.extend(gaps);
             }
         }
-        prev_char = ch;
     }
+    layout.sort_by_key(|gap| gap.start);
+
+    without_spans(xml, &layout)
+}
+
+/// What lies around and between the children of an element, nothing if it has none
+fn child_gaps(parent: &XmlTag, following: &[XmlTag]) -> Vec<Range<usize>> {
+    let mut gaps = Vec::new();
+    let mut from = parent.inner.start;
+    for tag in following {
+        if tag.span.start >= parent.inner.end {
+            break;
+        }
+        if tag.span.start >= from {
+            gaps.push(from..tag.span.start);
+            from = tag.span.end;
+        }
+    }
+    if !gaps.is_empty() {
+        gaps.push(from..parent.inner.end);
+    }
+    gaps
+}
+
+/// Whether a text is XML whitespace only
+fn is_blank(text: &str) -> bool {
+    text.chars().all(is_xml_space)
+}
 
-    result
+fn is_xml_space(c: char) -> bool {
+    matches!(c, ' ' | '\t' | '\r' | '\n')
 }
 
 /// Analyze PPTX file and return size breakdown
-- 
2.43.0


From 0cb4123ab8f4e84546d7f12f5fca8ec80b26358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:27 +0000
Subject: [PATCH 38/39] fix: relationships of parts at the package root are
 relative to the root

---
 src/core/package_validation/rels.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/core/package_validation/rels.rs b/src/core/package_validation/rels.rs
index be550b2..9751770 100644
--- a/src/core/package_validation/rels.rs
+++ b/src/core/package_validation/rels.rs
@@ -2,15 +2,11 @@
 
 /// Directory containing the source part for a `.rels` file.
 pub fn rels_source_dir(rels_path: &str) -> String {
-    if rels_path == "_rels/.rels" {
-        return String::new();
+    match rels_path.rsplit_once('/') {
+        // The relationships of the package and of the parts at its root
+        Some(("_rels", _)) | None => String::new(),
+        Some((dir, _)) => dir.strip_suffix("/_rels").unwrap_or(dir).to_string(),
     }
-    let part_path = rels_path.replacen("/_rels/", "/", 1);
-    let part_path = part_path.strip_suffix(".rels").unwrap_or(&part_path);
-    part_path
-        .rsplit_once('/')
-        .map(|(dir, _)| dir.to_string())
-        .unwrap_or_default()
 }
 
 /// Resolve a relationship `Target` relative to the source part directory.
-- 
2.43.0


From 0fd32770424f4072c5ec95a00ef964a9af4c0aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:40 +0000
Subject: [PATCH 39/39] fix: every relationship reference of a slide is
 checked, however it is spelled

---
 src/core/package_validation/rules.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/core/package_validation/rules.rs b/src/core/package_validation/rules.rs
index 9bd6d12..ec52e4d 100644
--- a/src/core/package_validation/rules.rs
+++ b/src/core/package_validation/rules.rs
@@ -6,7 +6,7 @@ use std::io::{Read, Seek};
 use zip::ZipArchive;
 
 use crate::core::validation::validate_well_formed_xml;
-use crate::core::xml_scan::scan_tags;
+use crate::core::xml_scan::{scan_fragment, scan_tags};
 use crate::generator::package_xml::{first_slide_rel_id, slide_id_value};
 
 use super::context::PackageContext;
@@ -589,17 +589,12 @@ fn extract_attr_values(xml: &str, element: &str, attr: &str) -> Vec<String> {
 /// Collect `r:embed` and chart-style `r:id` references from slide XML.
 fn extract_rel_reference_ids(slide_xml: &str) -> Vec<String> {
     let mut ids = Vec::new();
-    for prefix in ["r:embed=\"", "r:id=\""] {
-        let mut search_from = 0;
-        while let Some(start) = slide_xml[search_from..].find(prefix) {
-            let abs = search_from + start + prefix.len();
-            if let Some(end) = slide_xml[abs..].find('"') {
-                let id = &slide_xml[abs..abs + end];
-                if id.starts_with("rId") {
-                    ids.push(id.to_string());
-                }
+    for tag in scan_fragment(slide_xml, &["p", "a", "r", "c"]).unwrap_or_default() {
+        for (name, id) in tag.attributes {
+            // An empty id refers to nothing (a link that only names an action)
+            if (name == "r:embed" || name == "r:id") && !id.is_empty() {
+                ids.push(id);
             }
-            search_from = abs;
         }
     }
     ids.sort();
-- 
2.43.0

