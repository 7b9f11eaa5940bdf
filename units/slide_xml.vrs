//@include prelude.rs
//@include xml.inc
verus! {
//@lits
//@opt xmllits, optmatch, forpath, forvec
//@known highlight_code, issue_id, parse_inline_formatting, calculate_font_size, is_dark_color, escape_xml, append_escape_xml, XmlWriter::with_capacity, XmlWriter::new
// ---- the writer ----
//@type core/xml_utils.rs|XmlWriter
impl View for XmlWriter { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.buffer@ } }
impl XmlWriter {
#[verifier::external_body] pub fn new() -> (r: XmlWriter) ensures r@.len() == 0 { unimplemented!() }
#[verifier::external_body] pub fn with_capacity(capacity: usize) -> (r: XmlWriter) ensures r@.len() == 0 { unimplemented!() }
}
//@fn core/xml_utils.rs|XmlWriter::xml_declaration
//@ ensures: same(old(self)@, final(self)@)
//@end
//@fn core/xml_utils.rs|XmlWriter::start_element
//@ requires: namey1(name@), forall|i: int| 0 <= i < attrs@.len() ==> namey((#[trigger] attrs@[i]).0@) && attrs@[i].0@.len() > 0
//@ opt: forown
//@ loop 0 inv: forall|z: St| #[trigger] run(z, old(self)@) == st(M::T, run(z, old(self)@).k) ==> run(z, self@) == st(M::A, cons(name@, run(z, old(self)@).k)) || vx_i0 == 0 && run(z, self@) == nm(M::N, name@, run(z, old(self)@).k)
//@ ensures: forall|z: St| run(z, old(self)@) == st(M::T, run(z, old(self)@).k) ==> #[trigger] run(z, final(self)@) == st(M::T, cons(name@, run(z, old(self)@).k))
//@end
//@fn core/xml_utils.rs|XmlWriter::end_element
//@ requires: namey(name@)
//@ ensures: forall|z: St| run(z, old(self)@) == st(M::T, cons(name@, tail(run(z, old(self)@).k))) ==> #[trigger] run(z, final(self)@) == st(M::T, tail(run(z, old(self)@).k))
//@end
//@fn core/xml_utils.rs|XmlWriter::empty_element
//@ requires: namey1(name@), forall|i: int| 0 <= i < attrs@.len() ==> namey((#[trigger] attrs@[i]).0@) && attrs@[i].0@.len() > 0
//@ opt: forown
//@ loop 0 inv: forall|z: St| #[trigger] run(z, old(self)@) == st(M::T, run(z, old(self)@).k) ==> run(z, self@) == st(M::A, cons(name@, run(z, old(self)@).k)) || vx_i0 == 0 && run(z, self@) == nm(M::N, name@, run(z, old(self)@).k)
//@ ensures: same(old(self)@, final(self)@)
//@end
//@fn core/xml_utils.rs|XmlWriter::text
//@ ensures: same(old(self)@, final(self)@)
//@end
//@fn core/xml_utils.rs|XmlWriter::raw
//@ ensures: final(self)@ == old(self)@ + xml@
//@end
//@fn core/xml_utils.rs|XmlWriter::finish
//@ ensures: vx_ret@ == self@
//@end
// ---- text ----
//@type generator/text/mod.rs|TextAlign derive Clone,Copy
//@fn generator/text/mod.rs|TextAlign::to_xml
//@ ensures: inert(vx_ret@)
//@end
//@type generator/text/mod.rs|TextAnchor derive Clone,Copy
//@fn generator/text/mod.rs|TextAnchor::to_xml
//@ ensures: inert(vx_ret@)
//@end
//@type generator/text/format.rs|TextFormat
pub open spec fn small(o: Option<u32>) -> bool { o is Some ==> o->Some_0 <= 10_000_000 }
pub open spec fn format_ok(f: TextFormat) -> bool { hexopt(f.color) && hexopt(f.highlight) && small(f.font_size) }
//@fn generator/text/format.rs|TextFormat::to_xml_attrs
//@ requires: format_ok(*self)
//@ ensures: attrs(vx_ret@)
//@end
//@fn generator/text/format.rs|TextFormat::to_highlight_xml
//@ requires: format_ok(*self)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/text/format.rs|color_to_xml
//@ requires: hexcol(hex_color@)
//@ ensures: closed(vx_ret@)
//@end
//@type generator/text/run.rs|Run
//@fn generator/text/run.rs|Run::to_xml
//@ requires: format_ok(self.format)
//@ ensures: closed(vx_ret@)
//@end
//@type generator/text/paragraph.rs|Paragraph
pub open spec fn para_ok(p: Paragraph) -> bool { forall|i: int| 0 <= i < p.runs@.len() ==> format_ok((#[trigger] p.runs@[i]).format) }
//@fn generator/text/paragraph.rs|Paragraph::to_xml
//@ requires: para_ok(*self)
//@ ensures: closed(vx_ret@)
//@end
//@type generator/text/frame.rs|TextFrame
//@fn generator/text/frame.rs|TextFrame::to_xml
//@ requires: forall|i: int| 0 <= i < self.paragraphs@.len() ==> para_ok(#[trigger] self.paragraphs@[i])
//@ ensures: closed(vx_ret@)
//@end
// ---- bullets ----
//@type generator/slide_content/bullet.rs|BulletStyle derive Clone,Copy
//@fn generator/slide_content/bullet.rs|BulletStyle::to_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_content/bullet.rs|BulletStyle::indent_xml
//@ requires: level <= 1000
//@ ensures: forall|k: Stk| #[trigger] run(st(M::A, k), vx_ret@) == st(M::A, k)
//@end
//@type generator/slide_content/bullet.rs|BulletTextFormat
//@type generator/slide_content/bullet.rs|BulletPoint
pub open spec fn bformat_ok(f: BulletTextFormat) -> bool { hexopt(f.color) && hexopt(f.highlight) && small(f.font_size) }
pub open spec fn bullet_ok(b: BulletPoint) -> bool { b.level <= 1000 && (b.format is Some ==> bformat_ok(b.format->Some_0)) }
//@fn generator/slide_content/bullet.rs|BulletPoint::new
//@ ensures: bullet_ok(vx_ret)
//@end
//@fn generator/slide_content/bullet.rs|BulletPoint::with_style
//@ ensures: bullet_ok(self) ==> bullet_ok(vx_ret)
//@end
// ---- links ----
//@type generator/hyperlinks.rs|HyperlinkAction
//@type generator/hyperlinks.rs|Hyperlink
//@fn generator/hyperlinks.rs|HyperlinkAction::action_type
//@ ensures: vx_ret is Some ==> inert(vx_ret->Some_0@)
//@end
impl HyperlinkAction { #[verifier::external_body] pub fn relationship_target(&self) -> String { unimplemented!() } }
//@fn generator/hyperlinks.rs|HyperlinkAction::is_external
//@end
//@fn generator/hyperlinks.rs|generate_text_hyperlink_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/hyperlinks.rs|generate_shape_hyperlink_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/hyperlinks.rs|generate_hyperlink_relationship_xml
//@ ensures: closed(vx_ret@)
//@end
// ---- text properties ----
//@type generator/layouts/common.rs|ExtendedTextProps
pub open spec fn props_ok(p: ExtendedTextProps) -> bool { hexopt(p.color) && hexopt(p.highlight) }
// the derived `Default`
#[verifier::external_body] pub fn vx_no_props() -> (r: ExtendedTextProps) ensures r.color is None, r.highlight is None, r.font_family is None { unimplemented!() }
//@fn generator/layouts/common.rs|ExtendedTextProps::new
//@ sub: .. Default :: default ( ) =>> .. vx_no_props ( )
//@ ensures: props_ok(vx_ret)
//@end
//@fn generator/layouts/common.rs|ExtendedTextProps::with_basic
//@ sub: .. Default :: default ( ) =>> .. vx_no_props ( )
//@ requires: hexoptr(color)
//@ ensures: props_ok(vx_ret)
//@end
//@fn generator/layouts/common.rs|ExtendedTextProps::to_xml
//@ requires: props_ok(*self)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/layouts/common.rs|generate_text_props_extended
//@ requires: props_ok(*props)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide/formatting.rs|generate_text_props
//@ requires: hexoptr(color)
//@ ensures: closed(vx_ret@)
//@end
//@type generator/slide/formatting.rs|TextSegment
#[verifier::external_body] pub fn parse_inline_formatting(text: &str) -> Vec<TextSegment> { unimplemented!() }
//@fn generator/slide/formatting.rs|generate_rich_text_runs
//@ requires: hexoptr(base_color)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_xml/layouts.rs|generate_bullet_text_props
//@ requires: props_ok(*default_props), bullet_format is Some ==> bformat_ok(*bullet_format->Some_0)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_xml/layouts.rs|generate_bullet_paragraph_from_point
//@ requires: props_ok(*default_props), bullet_ok(*bullet)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_xml/common.rs|generate_title_shape
//@ requires: inert(title_text@), closed(title_props@), inert(align@)
//@ ensures: closed(vx_ret@)
//@end
// ---- shapes ----
//@type generator/shapes.rs|ShapeType derive Clone,Copy
//@fn generator/shapes.rs|ShapeType::preset_name
//@ ensures: inert(vx_ret@)
//@end
//@type generator/shapes.rs|ShapeLine
//@type generator/shapes.rs|ShapeFill
//@type generator/shapes.rs|GradientDirection
//@type generator/shapes.rs|GradientStop
//@type generator/shapes.rs|GradientFill
//@type generator/shapes.rs|Shape
pub open spec fn fill_ok(f: Option<ShapeFill>) -> bool { f is Some ==> hexcol(f->Some_0.color@) }
pub open spec fn line_ok(f: Option<ShapeLine>) -> bool { f is Some ==> hexcol(f->Some_0.color@) }
pub open spec fn stops_ok(g: GradientFill) -> bool { forall|i: int| 0 <= i < g.stops@.len() ==> hexcol((#[trigger] g.stops@[i]).color@) }
pub open spec fn shape_ok(s: Shape) -> bool { fill_ok(s.fill) && line_ok(s.line) && (s.gradient is Some ==> stops_ok(s.gradient->Some_0)) }
//@fn generator/shapes.rs|GradientDirection::to_angle
//@end
//@fn generator/shapes_xml.rs|generate_fill_xml
//@ requires: fill_ok(*fill)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/shapes_xml.rs|generate_gradient_xml
//@ requires: stops_ok(*gradient)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/shapes_xml.rs|generate_line_xml
//@ requires: line_ok(*line)
//@ ensures: closed(vx_ret@)
//@end
#[verifier::external_body] pub fn calculate_font_size(text: &str, width: u32, height: u32) -> u32 { unimplemented!() }
#[verifier::external_body] pub fn is_dark_color(hex_color: &str) -> bool { unimplemented!() }
//@fn generator/shapes_xml.rs|get_text_color
//@ ensures: inert(vx_ret@)
//@end
//@fn generator/shapes_xml.rs|generate_text_xml_with_autofit
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/shapes_xml.rs|generate_shape_xml
//@ requires: shape_ok(*shape)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/shapes_xml.rs|generate_connector_xml
//@ requires: hexcol(color@)
//@ rename: generate_plain_connector_xml
//@ ensures: closed(vx_ret@)
//@end
// ---- transitions ----
//@type generator/slide_content/transition.rs|TransitionType derive Clone,Copy
//@fn generator/slide_content/transition.rs|TransitionType::to_xml
//@ ensures: closed(vx_ret@)
//@end
// ---- images ----
//@type generator/images.rs|Crop
//@type generator/images.rs|ImageEffect
//@type generator/images.rs|Image only filename,width,height,x,y,crop,effects,alt_text
//@fn generator/image_effects.rs|generate_effect_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/image_effects.rs|generate_effect_list_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/image_effects.rs|generate_blip_fill_xml
//@ opt: forarr
//@ requires: inert(rel_id@)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/images_xml.rs|generate_image_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/images_xml.rs|generate_image_relationship
//@ ensures: closed(vx_ret@)
//@end
// ---- connectors ----
//@type generator/connectors.rs|ConnectorType
//@fn generator/connectors.rs|ConnectorType::preset_name
//@ ensures: inert(vx_ret@)
//@end
//@type generator/connectors.rs|ArrowType derive PartialEq,Eq,Structural
//@fn generator/connectors.rs|ArrowType::xml_value
//@ ensures: inert(vx_ret@)
//@end
//@type generator/connectors.rs|ArrowSize
//@fn generator/connectors.rs|ArrowSize::xml_value
//@ ensures: inert(vx_ret@)
//@end
//@type generator/connectors.rs|ConnectionSite derive Clone,Copy
//@fn generator/connectors.rs|ConnectionSite::index
//@end
//@type generator/connectors.rs|LineDash
//@fn generator/connectors.rs|LineDash::xml_value
//@ ensures: inert(vx_ret@)
//@end
//@type generator/connectors.rs|ConnectorLine
//@type generator/connectors.rs|Connector
impl Connector {
#[verifier::external_body] pub fn width(&self) -> u32 { unimplemented!() }
#[verifier::external_body] pub fn height(&self) -> u32 { unimplemented!() }
}
//@fn generator/connectors.rs|Connector::flip_h
//@end
//@fn generator/connectors.rs|Connector::flip_v
//@end
//@fn generator/connectors.rs|generate_connector_xml
//@ attr: #[verifier::rlimit(50)]
//@ opt: ifcheck
//@ requires: hexcol(connector.line.color@)
//@ ensures: closed(vx_ret@)
//@end
// ---- tables ----
//@type generator/table/cell.rs|CellAlign derive PartialEq,Eq,Structural
//@fn generator/table/cell.rs|CellAlign::as_str
//@ ensures: inert(vx_ret@)
//@end
//@type generator/table/cell.rs|CellVAlign derive PartialEq,Eq,Structural
//@fn generator/table/cell.rs|CellVAlign::as_str
//@ ensures: inert(vx_ret@)
//@end
//@type generator/table/cell.rs|TableCell
//@type generator/table/row.rs|TableRow
//@type generator/table/builder.rs|Table
//@type generator/slide_content/table_merge.rs|CellMergeState
impl Table {
#[verifier::external_body] pub fn width(&self) -> u32 { unimplemented!() }
#[verifier::external_body] pub fn height(&self) -> u32 { unimplemented!() }
}
pub open spec fn cell_ok(c: TableCell) -> bool { hexopt(c.text_color) && hexopt(c.background_color) && small(c.font_size) }
pub open spec fn row_ok(r: TableRow) -> bool { forall|i: int| 0 <= i < r.cells@.len() ==> cell_ok(#[trigger] r.cells@[i]) }
pub open spec fn table_ok(t: Table) -> bool { t.rows@.len() < 0x1000_0000 && t.column_widths@.len() < 0x1000_0000 && forall|i: int| 0 <= i < t.rows@.len() ==> row_ok(#[trigger] t.rows@[i]) }
//@fn generator/slide_content/table_merge.rs|CellMergeState::to_xml_attrs
//@ ensures: forall|n: Seq<char>, k: Stk| #[trigger] run(nm(M::N, n, k), vx_ret@) == st(M::A, cons(n, k)) || vx_ret@.len() == 0
//@end
#[verifier::external_body] pub fn vx_no_format() -> (r: TextFormat) ensures format_ok(r) { unimplemented!() }
//@fn generator/text/format.rs|TextFormat::new
//@ sub: Self :: default ( ) =>> vx_no_format ( )
//@ ensures: format_ok(vx_ret)
//@end
//@fn generator/text/format.rs|TextFormat::bold
//@ ensures: format_ok(self) ==> format_ok(vx_ret)
//@end
//@fn generator/text/format.rs|TextFormat::italic
//@ ensures: format_ok(self) ==> format_ok(vx_ret)
//@end
//@fn generator/text/format.rs|TextFormat::underline
//@ ensures: format_ok(self) ==> format_ok(vx_ret)
//@end
//@fn generator/text/format.rs|TextFormat::color
//@ ensures: format_ok(self) && hexcol(hex_color@) ==> format_ok(vx_ret)
//@end
//@fn generator/text/format.rs|TextFormat::font_size
//@ ensures: format_ok(self) && size <= 10_000_000 ==> format_ok(vx_ret)
//@end
//@fn generator/text/format.rs|TextFormat::font_family
//@ ensures: format_ok(self) ==> format_ok(vx_ret)
//@end
//@fn generator/table/format.rs|TableCell::to_text_format
//@ requires: cell_ok(*self)
//@ ensures: format_ok(vx_ret)
//@end
//@fn generator/table/format.rs|merge_attrs_from_cell
//@ ensures: forall|n: Seq<char>, k: Stk| #[trigger] run(nm(M::N, n, k), vx_ret@) == st(M::A, cons(n, k)) || vx_ret@.len() == 0
//@end
//@fn generator/table/format.rs|run_properties_xml
//@ requires: cell_ok(*cell)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/table/format.rs|paragraph_props_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/table/format.rs|body_props_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/table/format.rs|tc_properties_xml
//@ requires: cell_ok(*cell)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/table/format.rs|generate_cell_xml
//@ requires: cell_ok(*cell)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/table/xml.rs|generate_row_xml
//@ requires: row_ok(*row), row_idx < 0x1000_0000
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/table/xml.rs|generate_table_xml
//@ requires: table_ok(*table)
//@ ensures: closed(vx_ret@)
//@end
// ---- charts on a slide ----
//@type generator/charts/data.rs|Chart only x,y,width,height
//@fn generator/charts/xml.rs|generate_chart_ref_xml
//@ requires: inert(r_id@)
//@ ensures: closed(vx_ret@)
//@end
// ---- slides ----
//@type generator/slide_content/code_block.rs|CodeBlock
//@type generator/slide_content/layout.rs|SlideLayout
//@type generator/slide_content/content.rs|SlideContent only title,content,bullets,bullet_style,title_size,content_size,title_bold,content_bold,title_italic,content_italic,title_underline,content_underline,title_color,content_color,layout,transition,table,shapes,images,notes,connectors,charts,code_blocks,ink_annotations
#[verifier::external_body] pub struct InkAnnotations;
impl Image { #[verifier::external_body] pub fn get_bytes(&self) -> Option<Vec<u8>> { unimplemented!() } }
pub open spec fn slide_ok(c: SlideContent) -> bool {
    &&& small(c.title_size) && small(c.content_size) && hexopt(c.title_color) && hexopt(c.content_color)
    &&& forall|i: int| 0 <= i < c.bullets@.len() ==> bullet_ok(#[trigger] c.bullets@[i])
    &&& forall|i: int| 0 <= i < c.shapes@.len() ==> shape_ok(#[trigger] c.shapes@[i])
    &&& forall|i: int| 0 <= i < c.connectors@.len() ==> hexcol((#[trigger] c.connectors@[i]).line.color@)
    &&& (c.table is Some ==> table_ok(c.table->Some_0))
    &&& few(c.bullets@) && few(c.content@) && few(c.shapes@) && few(c.connectors@) && few(c.images@) && few(c.charts@) && few(c.code_blocks@)
}
pub open spec fn rids_ok(c: Seq<String>, i: Option<&str>) -> bool { (forall|j: int| 0 <= j < c.len() ==> inert((#[trigger] c[j])@)) && (i is Some ==> inert(i->Some_0@)) }
//@type cli/syntax.rs|HighlightedSegment
// the syntax highlighter (crate syntect): the colours it gives are two hexadecimal digits per component
#[verifier::external_body] pub fn highlight_code(code: &str, language: &str) -> (r: Vec<Vec<HighlightedSegment>>) ensures forall|i: int, j: int| 0 <= i < r@.len() && 0 <= j < r@[i]@.len() ==> hexcol((#[trigger] r@[i]@[j]).color@) { unimplemented!() }
//@fn cli/syntax.rs|generate_highlighted_code_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_xml/content.rs|generate_code_block
//@ ensures: closed(vx_ret@)
//@end
#[verifier::external_body] pub fn issue_id(shapes: &[Shape], last_id: &mut usize, wanted: usize) -> usize { unimplemented!() }
//@fn generator/slide_xml/content.rs|render_additional_content
//@ requires: slide_ok(*content), rids_ok(chart_rids@, ink_rel_id)
//@ ensures: same(old(xml)@, final(xml)@)
//@end
//@fn generator/slide_xml/layouts.rs|create_blank_slide
//@ requires: slide_ok(*content), rids_ok(chart_rids@, ink_rel_id)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_xml/layouts.rs|create_title_only_slide
//@ requires: slide_ok(*content), rids_ok(chart_rids@, ink_rel_id)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_xml/layouts.rs|create_section_header_slide
//@ requires: slide_ok(*content), rids_ok(chart_rids@, ink_rel_id)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_xml/layouts.rs|create_centered_title_slide
//@ requires: slide_ok(*content), rids_ok(chart_rids@, ink_rel_id)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_xml/layouts.rs|create_title_and_big_content_slide
//@ requires: slide_ok(*content), rids_ok(chart_rids@, ink_rel_id)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_xml/layouts.rs|create_two_column_slide
//@ requires: slide_ok(*content), rids_ok(chart_rids@, ink_rel_id)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_xml/layouts.rs|create_title_and_content_slide
//@ requires: slide_ok(*content), rids_ok(chart_rids@, ink_rel_id)
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_xml/mod.rs|create_slide_xml
//@ ensures: closed(vx_ret@)
//@end
//@fn generator/slide_xml/mod.rs|create_slide_xml_with_content
//@ requires: slide_ok(*content), rids_ok(chart_rids@, ink_rel_id)
//@ ensures: closed(vx_ret@)
//@end
//%extras
} // verus!
fn main() {}
