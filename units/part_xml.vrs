//@include prelude.rs
//@include xml.inc
verus! {
//@lits
//@opt xmllits, optmatch, forpath, forvec
//@known series_column, escape_xml, append_escape_xml, xml_escape, current_timestamp, generate_section_id
// ---- the package's own parts ----
//@const generator/layout_parts.rs|STANDARD_LAYOUT_COUNT
//@fn core/xml_utils.rs|append_usize
//@ ensures: final(buf)@ == old(buf)@ + dec(value as nat)
//@end
//@fn generator/package_xml.rs|append_image_content_type_defaults
//@ opt: forarr
//@ ensures: same(old(xml)@, final(xml)@)
//@end
//@fn generator/package_xml.rs|content_types_opening
//@ ensures: forall|k: Stk| #[trigger] run(st(M::T, k), vx_ret@) == st(M::T, cons(S"Types", k))
//@end
//@fn generator/package_xml.rs|append_slide_overrides
//@ ensures: same(old(xml)@, final(xml)@)
//@end
//@fn generator/layout_parts.rs|append_layout_content_type_overrides
//@ ensures: same(old(xml)@, final(xml)@)
//@end
//@fn generator/package_xml.rs|create_content_types_xml
//@ requires: slides < 0x1000_0000
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/package_xml.rs|create_rels_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/package_xml.rs|create_rels_xml_with_signature
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/package_xml.rs|create_presentation_rels_xml
//@ requires: slides < 0x1000_0000
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/package_xml.rs|create_presentation_rels_xml_with_notes
//@ requires: slides < 0x1000_0000
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/package_xml.rs|create_presentation_rels_xml_full
//@ requires: slides < 0x1000_0000
//@ ensures: closed(vx_ret@)
//@end
// every module's own xml_escape: each proved in unit xml_escape
#[verifier::external_body] pub fn xml_escape(s: &str) -> (r: String) ensures escaped(r@, s@) { unimplemented!() }
// pieces between separators
pub trait VxPieces { spec fn ps(&self) -> Seq<String>; fn vx_join(&self, sep: &str) -> (r: String) ensures
    (forall|i: int| 0 <= i < self.ps().len() ==> attrs((#[trigger] self.ps()[i])@)) && attrs(sep@) ==> attrs(r@),
    (forall|i: int| 0 <= i < self.ps().len() ==> inert((#[trigger] self.ps()[i])@)) && inert(sep@) ==> inert(r@); }
impl VxPieces for Vec<String> { open spec fn ps(&self) -> Seq<String> { self@ } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { self.join(sep) } }
pub assume_specification<T: std::cmp::PartialEq> [<[T]>::contains] (v: &[T], x: &T) -> bool;
// ---- embedded fonts ----
//@type generator/slide_content/embedded_fonts.rs|FontStyle
//@type generator/slide_content/embedded_fonts.rs|FontCharset
//@type generator/slide_content/embedded_fonts.rs|EmbeddedFont only typeface,style,charset,panose,pitch_family,relationship_id
//@type generator/slide_content/embedded_fonts.rs|EmbeddedFontList
//@fn generator/slide_content/embedded_fonts.rs|FontStyle::xml_element
//@ ensures: namey(vx_ret@)
//@end
//@fn generator/slide_content/embedded_fonts.rs|FontCharset::code
//@end
//@fn generator/slide_content/embedded_fonts.rs|EmbeddedFontList::fonts
//@ ensures: vx_ret@ == self.fonts@
//@end
impl EmbeddedFont { #[verifier::external_body] pub fn rel_target(&self) -> String { unimplemented!() } }
//@fn generator/slide_content/embedded_fonts.rs|EmbeddedFontList::to_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/package_xml.rs|create_presentation_rels_xml_full_with_fonts
//@ requires: slides < 0x1000_0000
//@ loop 0 inv: closed(xml@)
//@ sub: xml.rfind("</Relationships>").unwrap_or(xml.len()) =>> match xml.rfind("</Relationships>") { Some(vx_p) => vx_p, None => xml.len() }
//@ ensures: closed(vx_ret@)
//@end
// ---- presentation ----
//@const generator/package_xml.rs|SLIDE_MASTER_ID
//@const generator/package_xml.rs|SLIDE_LAYOUT_ID
//@fn generator/package_xml.rs|create_presentation_xml
//@ requires: slides < 0x1000_0000
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/package_xml.rs|create_presentation_xml_with_fonts
//@ requires: slides < 0x1000_0000
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/package_xml.rs|create_table_styles_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/package_xml.rs|create_view_props_xml
//@ ensures: closed(vx_ret@)
//@end
// ---- slide show ----
//@type generator/slide_content/slide_show_settings.rs|ShowType derive Clone,Copy
//@type generator/slide_content/slide_show_settings.rs|PenColor
//@type generator/slide_content/slide_show_settings.rs|SlideRange
//@type generator/slide_content/slide_show_settings.rs|SlideShowSettings
//@fn generator/slide_content/slide_show_settings.rs|ShowType::to_xml_element
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_content/slide_show_settings.rs|SlideShowSettings::to_xml
//@ opt: remap_join
//@ requires: hexcol(self.pen_color.color@)
//@ ensures: closed(vx_ret@)
//@end
//@type generator/slide_content/presentation_settings.rs|PresentationSettings only slide_show
//@fn generator/package_xml.rs|create_pres_props_xml
//@ requires: settings is Some && settings->Some_0.slide_show is Some ==> hexcol(settings->Some_0.slide_show->Some_0.pen_color.color@)
//@ ensures: closed(vx_ret@)
//@end
// ---- content types and relationships ----
//@type generator/slide_content/content.rs|SlideContent only notes
//@fn generator/charts/embedding.rs|chart_embedding_filename
//@ ensures: inert(vx_ret@)
//@end
//@fn generator/charts/embedding.rs|create_chart_rels_xml
//@ requires: inert(embedding_filename@)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/package_xml.rs|create_content_types_xml_with_notes_and_charts
//@ requires: slides < 0x1000_0000, chart_count < 0x1000_0000, custom_slides is Some ==> few(custom_slides->Some_0@)
//@ loop 0 inv: vx_r0 <= vx_i0
//@ loop 1 inv: notes_index <= vx_i1
//@ attr: #[verifier::rlimit(60)]
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/package_xml.rs|append_digital_signature_content_type
//@ ensures: closed(old(xml)@) ==> closed(final(xml)@)
//@end
//@fn generator/package_xml.rs|append_embedded_font_content_type
//@ ensures: closed(old(xml)@) ==> closed(final(xml)@)
//@end
//@fn generator/package_xml.rs|append_ink_content_types
//@ requires: ink_count < 0x1000_0000
//@ ensures: closed(old(xml)@) ==> closed(final(xml)@)
//@end
//@fn generator/package_xml.rs|create_handout_master_rels_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/layout_parts.rs|layout_rel_target
//@ ensures: inert(vx_ret@)
//@end
//@fn generator/package_xml.rs|create_slide_rels_xml_extended
//@ opt: forown
//@ requires: forall|i: int| 0 <= i < chart_rels@.len() ==> inert((#[trigger] chart_rels@[i]).0@) && inert(chart_rels@[i].1@)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/package_xml.rs|create_slide_rels_xml_with_images
//@ opt: forown
//@ requires: forall|i: int| 0 <= i < chart_rels@.len() ==> inert((#[trigger] chart_rels@[i]).0@) && inert(chart_rels@[i].1@), forall|i: int| 0 <= i < images@.len() ==> inert((#[trigger] images@[i]).1@), forall|i: int| 0 <= i < hyperlink_rels@.len() ==> closed((#[trigger] hyperlink_rels@[i])@), few(images@)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_xml/common.rs|create_slide_rels_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_xml/common.rs|create_slide_rels_xml_for_layout
//@ ensures: closed(vx_ret@)
//@end
// ---- layouts and masters ----
//@type generator/slide_content/print_settings.rs|HandoutLayout
//@type generator/slide_content/print_settings.rs|PrintColorMode
//@type generator/slide_content/print_settings.rs|PrintWhat
//@type generator/slide_content/print_settings.rs|Orientation
//@type generator/slide_content/print_settings.rs|PrintSettings
//@fn generator/slide_content/print_settings.rs|PrintColorMode::to_xml_value
//@ ensures: inert(vx_ret@)
//@end
//@fn generator/slide_content/print_settings.rs|PrintWhat::to_xml_value
//@ ensures: inert(vx_ret@)
//@end
//@fn generator/slide_content/print_settings.rs|PrintSettings::to_prnpr_xml
//@ opt: remap_join
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_content/print_settings.rs|PrintSettings::to_handout_master_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/layout_parts.rs|placeholder
//@ requires: inert(name@), inert(ph_type@)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/layout_parts.rs|layout_shell
//@ requires: inert(type_attr@), inert(name@), closed(shapes@)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/layout_parts.rs|slide_master_footer_shapes
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/layout_parts.rs|create_slide_layout_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/layout_parts.rs|create_master_rels_xml
//@ requires: layout_count < 0x1000_0000
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/theme_xml.rs|create_slide_master_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/theme_xml.rs|create_master_rels_xml
//@ rename: create_standard_master_rels_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/presentation_theme.rs|office_theme_xml
//@ ensures: closed(vx_ret@)
//@end
// ---- notes ----
//@fn generator/notes_xml.rs|generate_field_guid
//@ ensures: inert(vx_ret@)
//@end
//@fn generator/notes_xml.rs|create_notes_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/notes_xml.rs|create_notes_rels_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/notes_xml.rs|create_notes_master_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/notes_xml.rs|create_notes_master_rels_xml
//@ ensures: closed(vx_ret@)
//@end
// ---- document properties ----
#[verifier::external_body] pub fn current_timestamp() -> (r: String) ensures inert(r@) { unimplemented!() }
//@fn generator/props_xml.rs|create_core_props_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/props_xml.rs|heading_pairs_and_titles
//@ ensures: closed(vx_ret@)
//@end
pub trait VxStrings { fn vx_to_vec(&self) -> Vec<String>; }
impl VxStrings for [String] { #[verifier::external_body] fn vx_to_vec(&self) -> Vec<String> { self.to_vec() } }
#[verifier::external_body] pub fn vx_first(s: &[String], n: usize) -> Vec<String> { s.iter().take(n).cloned().collect() }
//@fn generator/props_xml.rs|create_app_props_xml
//@ sub: slide_titles . iter ( ) . take ( slides ) . cloned ( ) . collect ( ) =>> vx_first ( slide_titles , slides )
//@ ensures: closed(vx_ret@)
//@end
// ---- comments ----
//@type generator/slide_content/comments.rs|CommentAuthor
//@type generator/slide_content/comments.rs|Comment
//@type generator/slide_content/comments.rs|CommentAuthorList only authors
//@type generator/slide_content/comments.rs|SlideComments
//@fn generator/slide_content/comments.rs|CommentAuthor::to_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_content/comments.rs|Comment::to_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_content/comments.rs|CommentAuthorList::to_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_content/comments.rs|SlideComments::to_xml
//@ ensures: closed(vx_ret@)
//@end
// ---- ink ----
//@type generator/slide_content/ink_annotations.rs|PenTip derive Clone,Copy
//@type generator/slide_content/ink_annotations.rs|InkPen
//@type generator/slide_content/ink_annotations.rs|InkPoint derive Clone,Copy
//@type generator/slide_content/ink_annotations.rs|InkStroke
//@type generator/slide_content/ink_annotations.rs|InkAnnotations
//@fn generator/slide_content/ink_annotations.rs|PenTip::to_xml
//@ ensures: inert(vx_ret@)
//@end
pub open spec fn all_inert(v: Seq<String>) -> bool { forall|i: int| 0 <= i < v.len() ==> inert((#[trigger] v[i])@) }
//@fn generator/slide_content/ink_annotations.rs|InkStroke::to_xml
//@ opt: remap_join
//@ loop 0 inv: all_inert(vx_r0@)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_content/ink_annotations.rs|InkAnnotations::part_xml
//@ requires: few(self.strokes@), forall|i: int| 0 <= i < self.strokes@.len() ==> hexcol((#[trigger] self.strokes@[i]).pen.color@)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_content/ink_annotations.rs|InkAnnotations::rel_id
//@ ensures: inert(vx_ret@)
//@end
//@fn generator/slide_content/ink_annotations.rs|InkAnnotations::to_xml
//@ ensures: closed(vx_ret@)
//@end
// ---- signature ----
//@type generator/slide_content/digital_signature.rs|HashAlgorithm derive Clone,Copy
//@type generator/slide_content/digital_signature.rs|SignerInfo
//@type generator/slide_content/digital_signature.rs|SignatureCommitment derive Clone,Copy
//@type generator/slide_content/digital_signature.rs|DigitalSignature
//@fn generator/slide_content/digital_signature.rs|HashAlgorithm::uri
//@ ensures: inert(vx_ret@)
//@end
//@fn generator/slide_content/digital_signature.rs|SignatureCommitment::uri
//@ ensures: inert(vx_ret@)
//@end
//@fn generator/slide_content/digital_signature.rs|SignatureCommitment::label
//@ ensures: inert(vx_ret@)
//@end
//@fn generator/slide_content/digital_signature.rs|DigitalSignature::to_origin_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_content/digital_signature.rs|DigitalSignature::to_signature_xml
//@ ensures: closed(vx_ret@)
//@end
// ---- media ----
//@type generator/media.rs|VideoFormat derive Clone,Copy
//@type generator/media.rs|AudioFormat derive Clone,Copy
//@type generator/media.rs|Video only x,y,width,height,alt_text
//@type generator/media.rs|Audio only x,y,width,height,alt_text
//@fn generator/media.rs|VideoFormat::mime_type
//@ ensures: inert(vx_ret@)
//@end
//@fn generator/media.rs|VideoFormat::extension
//@ ensures: inert(vx_ret@)
//@end
//@fn generator/media.rs|video_content_type
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/media.rs|AudioFormat::mime_type
//@ ensures: inert(vx_ret@)
//@end
//@fn generator/media.rs|AudioFormat::extension
//@ ensures: inert(vx_ret@)
//@end
//@fn generator/media.rs|audio_content_type
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/media.rs|generate_video_xml
//@ requires: inert(video_r_id@)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/media.rs|generate_audio_xml
//@ requires: inert(audio_r_id@)
//@ ensures: closed(vx_ret@)
//@end
// ---- sections ----
//@type generator/slide_content/sections.rs|SlideSection
//@type generator/slide_content/sections.rs|SectionManager
#[verifier::external_body] pub fn generate_section_id(name: &str) -> (r: String) ensures inert(r@) { unimplemented!() }
//@fn generator/slide_content/sections.rs|SectionManager::section_id
//@ requires: index < self.sections@.len()
//@ loop 0 inv: vx_r0 <= vx_i0
//@ ensures: inert(vx_ret@)
//@end
//@fn generator/slide_content/sections.rs|SectionManager::to_xml
//@ opt: remap_min
//@ requires: total_slides < 0x1000_0000
//@ ensures: closed(vx_ret@)
//@end
// ---- charts ----
//@type generator/charts/types.rs|ChartType derive Clone,Copy
//@type generator/charts/data.rs|ChartSeries
//@type generator/charts/data.rs|Chart only title,chart_type,categories,series
pub open spec fn chart_ok(c: Chart) -> bool { few(c.categories@) && few(c.series@) && forall|i: int| 0 <= i < c.series@.len() ==> few((#[trigger] c.series@[i]).values@) }
// column letters
#[verifier::external_body] pub fn series_column(idx: usize) -> (r: String) ensures inert(r@) { unimplemented!() }
//@fn generator/charts/types.rs|ChartType::bar_direction
//@ ensures: vx_ret is Some ==> inert(vx_ret->Some_0@)
//@end
//@fn generator/charts/types.rs|ChartType::grouping
//@ ensures: vx_ret is Some ==> inert(vx_ret->Some_0@)
//@end
//@fn generator/charts/types.rs|ChartType::scatter_style
//@ ensures: vx_ret is Some ==> inert(vx_ret->Some_0@)
//@end
//@fn generator/charts/types.rs|ChartType::radar_style
//@ ensures: vx_ret is Some ==> inert(vx_ret->Some_0@)
//@end
//@fn generator/charts/data.rs|Chart::category_count
//@ ensures: vx_ret == self.categories@.len()
//@end
//@fn generator/charts/xml.rs|chart_part_header
//@ ensures: forall|k: Stk| #[trigger] run(st(M::T, k), vx_ret@) == st(M::T, cons(S"c:plotArea", cons(S"c:chart", cons(S"c:chartSpace", k))))
//@end
//@fn generator/charts/xml.rs|generate_series_data
//@ requires: few(values@)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/charts/xml.rs|generate_category_axis
//@ requires: chart_ok(*chart), inert(ax_pos@)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/charts/xml.rs|generate_value_axis
//@ requires: inert(ax_pos@)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/charts/xml.rs|generate_bar_chart_xml
//@ opt: forvec
//@ requires: chart_ok(*chart)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/charts/xml.rs|generate_line_chart_xml
//@ opt: forvec
//@ requires: chart_ok(*chart)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/charts/xml.rs|generate_pie_chart_xml
//@ opt: forvec
//@ requires: chart_ok(*chart)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/charts/xml.rs|generate_doughnut_chart_xml
//@ opt: forvec
//@ requires: chart_ok(*chart)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/charts/xml.rs|generate_area_chart_xml
//@ opt: forvec
//@ requires: chart_ok(*chart)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/charts/xml.rs|generate_scatter_chart_xml
//@ opt: forvec
//@ requires: chart_ok(*chart)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/charts/xml.rs|generate_bubble_chart_xml
//@ opt: forvec
//@ requires: chart_ok(*chart)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/charts/xml.rs|generate_radar_chart_xml
//@ opt: forvec
//@ requires: chart_ok(*chart)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/charts/xml.rs|generate_stock_chart_xml
//@ opt: forvec
//@ requires: chart_ok(*chart)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/charts/xml.rs|generate_combo_chart_xml
//@ opt: remap_max
//@ requires: chart_ok(*chart)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/charts/xml.rs|generate_chart_part_xml
//@ requires: chart_ok(*chart)
//@ ensures: closed(vx_ret@)
//@end
//%extras
} // verus!
fn main() {}
