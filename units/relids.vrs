//@include prelude.rs
//@lits
//@opt optmatch
verus! {
global size_of usize == 8;
pub open spec fn rid(n: nat) -> Seq<char> { seq!['r', 'I', 'd'] + dec(n) }
pub proof fn lemma_rid_injective(a: nat, b: nat) requires rid(a) == rid(b) ensures a == b {
    assert(rid(a).skip(3) =~= dec(a)); assert(rid(b).skip(3) =~= dec(b)); lemma_dec_injective(a, b);
}
pub open spec fn bit(b: bool) -> int { if b { 1 } else { 0 } }
pub fn vx_usize_from(b: bool) -> (r: usize) ensures r == bit(b) { if b { 1 } else { 0 } }
// ------------------------------------------------- relationship numbers of presentation.xml
//@const SLIDE_MASTER_REL_ID
//@fn generator/package_xml.rs|first_slide_rel_id
//@ ensures: vx_ret == SLIDE_MASTER_REL_ID + 1
//@end
//@fn generator/package_xml.rs|slide_rel_id
//@ requires: slide_num < usize::MAX
//@ ensures: vx_ret == slide_num + 1
//@end
//@fn generator/package_xml.rs|notes_master_rel_id
//@ requires: slide_count < usize::MAX - 8
//@ ensures: vx_ret == slide_count + 2
//@end
//@fn generator/package_xml.rs|handout_master_rel_id
//@ sub: usize :: from =>> vx_usize_from
//@ requires: slide_count < usize::MAX - 8
//@ ensures: vx_ret == slide_count + 2 + bit(has_notes)
//@end
//@fn generator/package_xml.rs|pres_props_rel_id
//@ sub: usize :: from =>> vx_usize_from
//@ requires: slide_count < usize::MAX - 8
//@ ensures: vx_ret == slide_count + 2 + bit(has_notes) + bit(has_handout)
//@end
//@fn generator/package_xml.rs|view_props_rel_id
//@ requires: slide_count < usize::MAX - 8
//@ ensures: vx_ret == slide_count + 3 + bit(has_notes) + bit(has_handout)
//@end
//@fn generator/package_xml.rs|theme_rel_id
//@ requires: slide_count < usize::MAX - 8
//@ ensures: vx_ret == slide_count + 4 + bit(has_notes) + bit(has_handout)
//@end
//@fn generator/package_xml.rs|table_styles_rel_id
//@ requires: slide_count < usize::MAX - 8
//@ ensures: vx_ret == slide_count + 5 + bit(has_notes) + bit(has_handout)
//@end
//@fn generator/package_xml.rs|slide_id_value
//@ requires: slide_num < usize::MAX - 255
//@ ensures: slide_num >= 1 ==> vx_ret >= 256, vx_ret == 255 + slide_num
//@end
// the number each user of presentation.xml.rels gets: master, slides 1..n, notes master, handout
// master, properties, view, theme, table styles, fonts 0..
pub enum Use { Master, Slide(int), Notes, Handout, Props, View, Theme, Styles, Font(int) }
pub open spec fn num(u: Use, n: int, notes: bool, handout: bool) -> int {
    match u {
        Use::Master => 1, Use::Slide(k) => k + 1, Use::Notes => n + 2, Use::Handout => n + 2 + bit(notes), Use::Props => n + 2 + bit(notes) + bit(handout),
        Use::View => n + 3 + bit(notes) + bit(handout), Use::Theme => n + 4 + bit(notes) + bit(handout), Use::Styles => n + 5 + bit(notes) + bit(handout), Use::Font(k) => n + 6 + bit(notes) + bit(handout) + k,
    }
}
pub open spec fn used(u: Use, n: int, notes: bool, handout: bool) -> bool { match u { Use::Slide(k) => 1 <= k <= n, Use::Notes => notes, Use::Handout => handout, Use::Font(k) => 0 <= k, _ => true } }
// no two of them share an id
pub proof fn theorem_distinct(a: Use, b: Use, n: int, notes: bool, handout: bool)
    requires n >= 0, used(a, n, notes, handout), used(b, n, notes, handout), a != b
    ensures rid(num(a, n, notes, handout) as nat) != rid(num(b, n, notes, handout) as nat)
{
    if rid(num(a, n, notes, handout) as nat) == rid(num(b, n, notes, handout) as nat) { lemma_rid_injective(num(a, n, notes, handout) as nat, num(b, n, notes, handout) as nat); }
}
//@type EmbeddedFont only relationship_id
//@type EmbeddedFontList
//@fn EmbeddedFontList::assign_relationship_ids
//@ requires: start + old(self).fonts@.len() < usize::MAX
//@ loop 0 inv: vx_e0 == self.fonts@.len(), self.fonts@.len() == old(self).fonts@.len(), start + old(self).fonts@.len() < usize::MAX, forall|j: int| vx_i0 <= j < vx_e0 ==> #[trigger] self.fonts@[j] == old(self).fonts@[j], forall|j: int| 0 <= j < vx_i0 ==> (#[trigger] self.fonts@[j]).relationship_id@ == (if old(self).fonts@[j].relationship_id@.len() == 0 { rid((start + j) as nat) } else { old(self).fonts@[j].relationship_id@ })
//@ ensures:
//@   final(self).fonts@.len() == old(self).fonts@.len(),
//@   forall|i: int| 0 <= i < old(self).fonts@.len() ==> (#[trigger] final(self).fonts@[i]).relationship_id@ == (if old(self).fonts@[i].relationship_id@.len() == 0 { rid((start + i) as nat) } else { old(self).fonts@[i].relationship_id@ })
//@end
//@type PresentationSettings only embedded_fonts
//@fn prepare_settings
//@ requires: slide_count < usize::MAX - 16, (*old(settings)) is Some && (*old(settings))->Some_0.embedded_fonts is Some ==> slide_count + 16 + (*old(settings))->Some_0.embedded_fonts->Some_0.fonts@.len() < usize::MAX
//@ ensures:
//@   ((*final(settings)) is Some) == ((*old(settings)) is Some),
//@   (*old(settings)) is Some ==> ((*final(settings))->Some_0.embedded_fonts is Some) == ((*old(settings))->Some_0.embedded_fonts is Some),
//@   (*old(settings)) is Some && (*old(settings))->Some_0.embedded_fonts is Some ==> ({ let o = (*old(settings))->Some_0.embedded_fonts->Some_0.fonts@; let f = (*final(settings))->Some_0.embedded_fonts->Some_0.fonts@; f.len() == o.len() && forall|i: int| 0 <= i < o.len() && (#[trigger] o[i]).relationship_id@.len() == 0 ==> f[i].relationship_id@ == rid(num(Use::Font(i), slide_count as int, has_notes, has_handout) as nat) })
//@end
// ------------------------------------------------- relationship numbers of a slide
// layout, notes, pictures, charts, ink in this order
pub enum SUse { Layout, Notes, Image(int), Chart(int), Ink }
pub open spec fn snum(u: SUse, notes: bool, images: int, charts: int) -> int {
    match u { SUse::Layout => 1, SUse::Notes => 2, SUse::Image(k) => 2 + bit(notes) + k, SUse::Chart(k) => 2 + bit(notes) + images + k, SUse::Ink => 2 + bit(notes) + images + charts }
}
pub open spec fn sused(u: SUse, notes: bool, images: int, charts: int) -> bool { match u { SUse::Notes => notes, SUse::Image(k) => 0 <= k < images, SUse::Chart(k) => 0 <= k < charts, _ => true } }
pub proof fn theorem_slide_distinct(a: SUse, b: SUse, notes: bool, images: int, charts: int)
    requires images >= 0, charts >= 0, sused(a, notes, images, charts), sused(b, notes, images, charts), a != b
    ensures rid(snum(a, notes, images, charts) as nat) != rid(snum(b, notes, images, charts) as nat)
{
    if rid(snum(a, notes, images, charts) as nat) == rid(snum(b, notes, images, charts) as nat) { lemma_rid_injective(snum(a, notes, images, charts) as nat, snum(b, notes, images, charts) as nat); }
}
//@fn slide_content_rel_start
//@ sub: usize :: from =>> vx_usize_from
//@ requires: image_count < usize::MAX - 4
//@ ensures: vx_ret == snum(SUse::Chart(0), has_notes, image_count as int, 0)
//@end
//@fn push_chart_rid
//@ ensures: final(rids)@.len() == old(rids)@.len() + 1, forall|i: int| 0 <= i < old(rids)@.len() ==> #[trigger] final(rids)@[i] == old(rids)@[i], final(rids)@.last()@ == rid(rel_num as nat)
//@end
//@fn append_usize
//@ ensures: final(buf)@ == old(buf)@ + dec(value as nat)
//@end
pub open spec fn path3(a: Seq<char>, n: nat, b: Seq<char>) -> Seq<char> { a + dec(n) + b }
//@fn set_slide_xml_path
//@ ensures: final(path)@ =~= S"ppt/slides/slide" + dec(slide_num as nat) + S".xml"
//@end
//@fn set_slide_rels_path
//@ ensures: final(path)@ =~= S"ppt/slides/_rels/slide" + dec(slide_num as nat) + S".xml.rels"
//@end
//@fn set_notes_part_path
//@ ensures: final(path)@ =~= S"ppt/notesSlides/notesSlide" + dec(notes_part_num as nat) + S".xml"
//@end
//@fn layout_rel_target
//@ ensures: vx_ret@ =~= S"../slideLayouts/slideLayout" + dec(layout_number as nat) + S".xml"
//@end
//@fn chart_embedding_filename
//@ ensures: vx_ret@ =~= S"Microsoft_Excel_Sheet" + dec(chart_idx as nat) + S".xlsx"
//@end
// ------------------------------------------------- chart numbers: charts of slide i start after those of the slides before
//@type generator/charts/types.rs|Chart only title
//@type generator/shapes.rs|Shape only id
//@type generator/slide_content/content.rs|SlideContent only charts
//@type ChartInfo
pub open spec fn charts_before(s: Seq<SlideContent>, n: int) -> int decreases n { if n <= 0 { 0 } else { charts_before(s, n - 1) + s[n - 1].charts@.len() } }
pub proof fn lemma_charts_mono(s: Seq<SlideContent>, a: int, b: int) requires 0 <= a <= b ensures 0 <= charts_before(s, a) <= charts_before(s, b) decreases b - a, b { if a < b { lemma_charts_mono(s, a, b - 1); } else if a > 0 { lemma_charts_mono(s, a - 1, a - 1); } }
//@fn collect_chart_info
//@ opt: forpath
//@ requires: slides is Some ==> charts_before(slides->Some_0@, slides->Some_0@.len() as int) < usize::MAX
//@ ensures:
//@   slides is None ==> vx_ret.total_charts == 0 && vx_ret.slide_start_indices@.len() == 0,
//@   slides is Some ==> vx_ret.total_charts == charts_before(slides->Some_0@, slides->Some_0@.len() as int) && vx_ret.slide_start_indices@.len() == slides->Some_0@.len() && forall|i: int| 0 <= i < slides->Some_0@.len() ==> #[trigger] vx_ret.slide_start_indices@[i] == charts_before(slides->Some_0@, i) + 1
//@ loop 0 inv: vx_s0@ == slides@, total_charts == charts_before(slides@, vx_i0 as int), slide_start_indices@.len() == vx_i0, charts_before(slides@, slides@.len() as int) < usize::MAX, forall|i: int| 0 <= i < vx_i0 ==> #[trigger] slide_start_indices@[i] == charts_before(slides@, i) + 1
//@ loop 0 begin: proof { lemma_charts_mono(slides@, vx_i0 + 1, slides@.len() as int); }
//@end
// a chart part belongs to one slide only
pub proof fn theorem_chart_numbers(s: Seq<SlideContent>, i: int, j: int, a: int, b: int)
    requires 0 <= i < j < s.len(), 0 <= a < s[i].charts@.len(), 0 <= b < s[j].charts@.len()
    ensures 1 <= charts_before(s, i) + 1 + a < charts_before(s, j) + 1 + b <= charts_before(s, s.len() as int)
{
    lemma_charts_mono(s, i, i); lemma_charts_mono(s, i + 1, j); lemma_charts_mono(s, j + 1, s.len() as int);
}
// ------------------------------------------------- object ids on a slide: increasing, never a fixed id of a shape
pub open spec fn fixed(s: Seq<Shape>, id: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == Some(id as u32) && id <= u32::MAX }
//@fn issue_id
//@ opt: remap_max
//@ loop 0 inv: id >= wanted, id > *old(last_id), id <= 0x2_0000_0000_0000
//@ loop 0 dec: (if id <= u32::MAX { u32::MAX + 1 - id } else { 0 })
//@ loop 0 ens: !fixed(shapes@, id as int)
//@ loop 1 inv: vx_s1@ == shapes@, vx_r1 ==> vx_i1 < vx_s1@.len() && shapes@[vx_i1 as int].id == Some(id as u32) && id <= u32::MAX, !vx_r1 ==> forall|j: int| 0 <= j < vx_i1 ==> !((#[trigger] shapes@[j]).id == Some(id as u32) && id <= u32::MAX)
//@ requires: wanted < 0xffff_ffff_ffff, *old(last_id) < 0xffff_ffff_ffff
//@ ensures: vx_ret == *final(last_id), vx_ret > *old(last_id), vx_ret >= wanted, !fixed(shapes@, vx_ret as int)
//@end
//%extras
} // verus!
fn main() {}
