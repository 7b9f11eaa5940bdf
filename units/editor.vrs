//@include prelude.rs
//@include parts.inc
verus! {
//@lits
//@opt forvec, optmatch, dc_edit_part, dc_retarget
//@known find_element, attr_value, PresentationEditor::new_list_entry, Package::get_part_string
pub struct PptxError { pub c: u8 }
#[verifier::external_body] pub fn vx_notfound(i: usize) -> PptxError { unimplemented!() }
pub struct VxLayout { pub c: u8 }
impl VxLayout { #[verifier::external_body] pub fn layout_number(&self) -> usize { unimplemented!() } }
pub struct SlideContent { pub layout: VxLayout }
// text as bytes; what the slide writer makes of a content (C02, C03 say what that is)
pub uninterp spec fn enc(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn slide_text(c: SlideContent) -> Seq<char>;
pub uninterp spec fn layout_rels(c: VxLayout) -> Seq<char>;
#[verifier::external_body] pub fn vx_slide_xml(n: usize, c: &SlideContent) -> (r: String) ensures r@ == slide_text(*c) { unimplemented!() }
#[verifier::external_body] pub fn vx_layout_rels(c: &VxLayout) -> (r: String) ensures r@ == layout_rels(*c) { unimplemented!() }
#[verifier::external_body] pub fn vx_enc(s: String) -> (r: Vec<u8>) ensures r@ == enc(s@) { s.into_bytes() }
// reading a slide back (C15 says what the reader makes of the text)
pub struct ParsedSlide { pub c: u8 }
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn parsed(s: Seq<char>) -> Result<ParsedSlide, PptxError>;
#[verifier::external_body] pub fn vx_lossy(b: &[u8]) -> (r: String) ensures r@ == lossy(b@) { unimplemented!() }
#[verifier::external_body] pub fn vx_parse(s: &String) -> (r: Result<ParsedSlide, PptxError>) ensures r == parsed(s@) { unimplemented!() }
// any text, any part of a text: nothing is assumed about them
#[verifier::external_body] pub fn vx_any_string() -> String { unimplemented!() }
#[verifier::external_body] pub fn vx_cut(s: &String, a: usize, b: usize) -> &str { unimplemented!() }
#[verifier::external_body] pub fn find_element(xml: &str, tag: &str, from: usize) -> Option<(usize, usize)> { unimplemented!() }
#[verifier::external_body] pub fn attr_value<'a>(element: &'a str, name: &str) -> Option<&'a str> { unimplemented!() }
mod vx_bl { use vstd::prelude::*; verus! {
pub broadcast proof fn lemma_empty_add(a: Seq<char>, b: Seq<char>) requires a.len() == 0 ensures #[trigger] (a + b) == b { assert(a + b =~= b); }
} }
broadcast use vx_bl::lemma_empty_add;
// ---- names of parts
pub open spec fn sx(k: int) -> Seq<char> { S"ppt/slides/slide" + dec(k as nat) + S".xml" }
pub open spec fn sr(k: int) -> Seq<char> { S"ppt/slides/_rels/slide" + dec(k as nat) + S".xml.rels" }
pub open spec fn tmp() -> Seq<char> { S"ppt/slides/_temp_slide.xml" }
pub open spec fn notes_part(n: Seq<char>) -> bool { has_prefix(n, S"ppt/notesSlides/") }
pub open spec fn rel_part(n: Seq<char>) -> bool { has_suffix(n, S".rels") }
pub open spec fn index_part(n: Seq<char>) -> bool { n == S"ppt/presentation.xml" || n == S"[Content_Types].xml" }
pub open spec fn is_slide(n: Seq<char>) -> bool { exists|k: int| k >= 0 && n == #[trigger] sx(k) }
// parts an edit of the slide list may touch besides slides: relationships, notes pages, the two lists of slides
pub open spec fn aux(n: Seq<char>) -> bool { rel_part(n) || notes_part(n) || index_part(n) }
pub proof fn lemma_sx(a: int, b: int) requires a >= 0, b >= 0 ensures sx(a) == sx(b) ==> a == b {
    let p = S"ppt/slides/slide"; let q = S".xml";
    if sx(a) == sx(b) {
        assert(sx(a).len() == p.len() + dec(a as nat).len() + q.len());
        assert(sx(b).len() == p.len() + dec(b as nat).len() + q.len());
        assert(sx(a).subrange(p.len() as int, (p.len() + dec(a as nat).len()) as int) =~= dec(a as nat));
        assert(sx(b).subrange(p.len() as int, (p.len() + dec(b as nat).len()) as int) =~= dec(b as nat));
        lemma_dec_injective(a as nat, b as nat);
    }
}
pub proof fn lemma_sx_not_aux(a: int) requires a >= 0 ensures !aux(sx(a)), sx(a) != tmp(), !is_slide(tmp()), !aux(tmp()) {
    let n = sx(a);
    assert(n.last() == 'l');
    if rel_part(n) { let q = S".rels"; assert(n.subrange(n.len() - q.len(), n.len() as int).last() == 's'); }
    assert(n[4] == 's');
    if notes_part(n) { let p = S"ppt/notesSlides/"; assert(n.subrange(0, p.len() as int)[4] == p[4]); }
    if n == S"ppt/presentation.xml" { assert(n[4] == 'p'); }
    if n == S"[Content_Types].xml" { assert(n[4] == 't'); }
    let t = tmp();
    assert(n[11] == 's' && t[11] == '_');
    if is_slide(t) { let k = choose|k: int| k >= 0 && t == #[trigger] sx(k); assert(sx(k)[11] == 's'); }
    assert(t.last() == 'l');
    if rel_part(t) { let q = S".rels"; assert(t.subrange(t.len() - q.len(), t.len() as int).last() == 's'); }
    if notes_part(t) { let p = S"ppt/notesSlides/"; assert(t.subrange(0, p.len() as int)[4] == p[4]); }
    if t == S"ppt/presentation.xml" { assert(t[4] == 'p'); }
}
pub proof fn lemma_names() ensures aux(S"ppt/presentation.xml"), aux(S"[Content_Types].xml"), forall|n: Seq<char>| #[trigger] rel_part(n) ==> aux(n), forall|n: Seq<char>| #[trigger] notes_part(n) ==> aux(n), forall|k: int| k >= 0 ==> rel_part(#[trigger] sr(k)), forall|k: int| k >= 0 ==> !aux(#[trigger] sx(k)) && sx(k) != tmp(), forall|a: int, b: int| a >= 0 && b >= 0 && a != b ==> #[trigger] sx(a) != #[trigger] sx(b), !is_slide(tmp()), !aux(tmp()), rel_part(S"ppt/slides/_rels/_temp_slide.xml.rels"), rel_part(S"ppt/_rels/presentation.xml.rels"), forall|k: int| k >= 0 ==> is_slide(#[trigger] sx(k)) {
    assert forall|k: int| k >= 0 implies rel_part(#[trigger] sr(k)) by { let n = sr(k); let q = S".rels"; assert(n.subrange(n.len() - q.len(), n.len() as int) =~= q); }
    assert forall|k: int| k >= 0 implies !aux(#[trigger] sx(k)) && sx(k) != tmp() by { lemma_sx_not_aux(k); }
    lemma_sx_not_aux(0);
    assert forall|a: int, b: int| a >= 0 && b >= 0 && a != b implies #[trigger] sx(a) != #[trigger] sx(b) by { lemma_sx(a, b); }
    let n = S"ppt/slides/_rels/_temp_slide.xml.rels"; let q = S".rels"; assert(n.subrange(n.len() - q.len(), n.len() as int) =~= q);
    let n = S"ppt/_rels/presentation.xml.rels"; assert(n.subrange(n.len() - q.len(), n.len() as int) =~= q);
}
pub proof fn lemma_tmp() ensures S"ppt/slides/" + S"_temp_slide.xml" == tmp(), forall|k: int| k >= 0 ==> S"ppt/slides/" + (S"slide" + dec(k as nat) + S".xml") == #[trigger] sx(k) {
    assert(S"ppt/slides/" + S"_temp_slide.xml" =~= tmp());
    assert forall|k: int| k >= 0 implies S"ppt/slides/" + (S"slide" + dec(k as nat) + S".xml") == #[trigger] sx(k) by { assert(S"ppt/slides/" + (S"slide" + dec(k as nat) + S".xml") =~= sx(k)); }
}
// ---- two tables agree on a name
pub open spec fn same(a: Parts, b: Parts, n: Seq<char>) -> bool { a.dom().contains(n) == b.dom().contains(n) && (a.dom().contains(n) ==> a[n] == b[n]) }
// b is a with only auxiliary parts touched
pub open spec fn only_aux(a: Parts, b: Parts) -> bool { forall|n: Seq<char>| #![trigger same(a, b, n)] #![trigger a.dom().contains(n)] #![trigger b.dom().contains(n)] !aux(n) ==> same(a, b, n) }
// only slides and auxiliary parts
pub open spec fn only_slides(a: Parts, b: Parts) -> bool { forall|n: Seq<char>| #![trigger same(a, b, n)] #![trigger a.dom().contains(n)] #![trigger b.dom().contains(n)] !aux(n) && !is_slide(n) ==> same(a, b, n) }
// every name but those given
pub open spec fn only(a: Parts, b: Parts, x: Seq<char>) -> bool { forall|n: Seq<char>| #![trigger same(a, b, n)] #![trigger a.dom().contains(n)] #![trigger b.dom().contains(n)] n != x ==> same(a, b, n) }
pub open spec fn only_rels(a: Parts, b: Parts) -> bool { forall|n: Seq<char>| #![trigger same(a, b, n)] #![trigger a.dom().contains(n)] #![trigger b.dom().contains(n)] !rel_part(n) ==> same(a, b, n) }
pub open spec fn only2(a: Parts, b: Parts, x: Seq<char>, y: Seq<char>) -> bool { forall|n: Seq<char>| #![trigger same(a, b, n)] #![trigger a.dom().contains(n)] #![trigger b.dom().contains(n)] !rel_part(n) && n != x && n != y ==> same(a, b, n) }
// x is now called y (and relationships may have changed)
pub open spec fn moved(a: Parts, b: Parts, x: Seq<char>, y: Seq<char>) -> bool {
    &&& only2(a, b, x, y)
    &&& a.dom().contains(x) ==> b.dom().contains(y) && b[y] == a[x]
    &&& a.dom().contains(x) && x != y ==> !b.dom().contains(x)
    &&& !a.dom().contains(x) ==> same(a, b, x) && same(a, b, y)
}
pub proof fn lemma_rels_of(n: Seq<char>) ensures rel_part(n + S".rels") { let q = S".rels"; let m = n + q; assert(m.subrange(m.len() - q.len(), m.len() as int) =~= q); }
pub proof fn lemma_notes(d: Seq<char>) ensures notes_part(S"ppt/notesSlides/notesSlide" + d + S".xml") {
    let n = S"ppt/notesSlides/notesSlide" + d + S".xml"; let p = S"ppt/notesSlides/"; assert(n.subrange(0, p.len() as int) =~= p);
}
// the slides of a presentation, in order
pub open spec fn has_slides(m: Parts, n: int) -> bool { forall|k: int| 1 <= k <= n ==> m.dom().contains(#[trigger] sx(k)) }
pub open spec fn slides(m: Parts, n: int) -> Seq<Seq<u8>> { Seq::new(n as nat, |k: int| m[sx(k + 1)]) }
// ---- what the steps of an edit come to
pub open spec fn frame(a: Parts, b: Parts) -> bool { only_slides(a, b) }
pub open spec fn keep(a: Parts, b: Parts, k: int) -> bool { same(a, b, sx(k)) }
pub open spec fn down(a: Parts, b: Parts, k: int) -> bool { b.dom().contains(sx(k)) && b[sx(k)] == a[sx(k + 1)] }
pub open spec fn up(a: Parts, b: Parts, k: int) -> bool { b.dom().contains(sx(k)) && b[sx(k)] == a[sx(k - 1)] }
// slide s taken out, slides s+1 .. i-1 one place down, no slide at i-1
pub open spec fn out(a: Parts, b: Parts, s: int, i: int) -> bool {
    &&& frame(a, b)
    &&& forall|k: int| 0 <= k < s ==> #[trigger] keep(a, b, k)
    &&& forall|k: int| s <= k < i - 1 ==> #[trigger] down(a, b, k)
    &&& forall|k: int| k >= i ==> #[trigger] keep(a, b, k)
    &&& !b.dom().contains(sx(i - 1))
}
// slides g .. n one place up
pub open spec fn room(a: Parts, b: Parts, g: int, n: int) -> bool {
    &&& frame(a, b)
    &&& forall|k: int| 0 <= k < g ==> #[trigger] keep(a, b, k)
    &&& forall|k: int| g < k <= n + 1 ==> #[trigger] up(a, b, k)
    &&& forall|k: int| k > n + 1 ==> #[trigger] keep(a, b, k)
}
// slide f set aside, the slides between it and its new place moved
pub open spec fn aside(a: Parts, b: Parts, f: int) -> bool { forall|n: Seq<char>| #![trigger same(a, b, n)] #![trigger a.dom().contains(n)] #![trigger b.dom().contains(n)] !aux(n) && !is_slide(n) && n != tmp() ==> same(a, b, n) }
pub open spec fn left(a: Parts, b: Parts, f: int, i: int) -> bool {
    &&& aside(a, b, f) && b.dom().contains(tmp()) && b[tmp()] == a[sx(f)]
    &&& forall|k: int| 0 <= k < f ==> #[trigger] keep(a, b, k)
    &&& forall|k: int| f <= k < i ==> #[trigger] down(a, b, k)
    &&& forall|k: int| k > i ==> #[trigger] keep(a, b, k)
    &&& !b.dom().contains(sx(i))
}
pub open spec fn right(a: Parts, b: Parts, f: int, i: int) -> bool {
    &&& aside(a, b, f) && b.dom().contains(tmp()) && b[tmp()] == a[sx(f)]
    &&& forall|k: int| 0 <= k < i ==> #[trigger] keep(a, b, k)
    &&& forall|k: int| i < k <= f ==> #[trigger] up(a, b, k)
    &&& forall|k: int| k > f ==> #[trigger] keep(a, b, k)
    &&& !b.dom().contains(sx(i))
}
pub proof fn lemma_out(a: Parts, b: Parts, c: Parts, s: int, i: int) requires 1 <= s < i, out(a, b, s, i), a.dom().contains(sx(i)), moved(b, c, sx(i), sx(i - 1)) ensures out(a, c, s, i + 1) {
    lemma_names();
    assert(keep(a, b, i));
    assert forall|k: int| 0 <= k < s implies #[trigger] keep(a, c, k) by { assert(keep(a, b, k)); assert(b.dom().contains(sx(k)) || !b.dom().contains(sx(k))); }
    assert forall|k: int| s <= k < i implies #[trigger] down(a, c, k) by { if k < i - 1 { assert(down(a, b, k)); assert(b.dom().contains(sx(k))); } }
    assert forall|k: int| k >= i + 1 implies #[trigger] keep(a, c, k) by { assert(keep(a, b, k)); assert(b.dom().contains(sx(k)) || !b.dom().contains(sx(k))); }
}
pub proof fn lemma_room(a: Parts, b: Parts, c: Parts, g: int, n: int) requires 2 <= g <= n + 1, room(a, b, g, n), a.dom().contains(sx(g - 1)), moved(b, c, sx(g - 1), sx(g)) ensures room(a, c, g - 1, n) {
    lemma_names();
    assert(keep(a, b, g - 1));
    assert forall|k: int| 0 <= k < g - 1 implies #[trigger] keep(a, c, k) by { assert(keep(a, b, k)); assert(b.dom().contains(sx(k)) || !b.dom().contains(sx(k))); }
    assert forall|k: int| g - 1 < k <= n + 1 implies #[trigger] up(a, c, k) by { if k > g { assert(up(a, b, k)); assert(b.dom().contains(sx(k))); } }
    assert forall|k: int| k > n + 1 implies #[trigger] keep(a, c, k) by { assert(keep(a, b, k)); assert(b.dom().contains(sx(k)) || !b.dom().contains(sx(k))); }
}
pub proof fn lemma_left(a: Parts, b: Parts, c: Parts, f: int, i: int) requires 1 <= f <= i, left(a, b, f, i), a.dom().contains(sx(i + 1)), moved(b, c, sx(i + 1), sx(i)) ensures left(a, c, f, i + 1) {
    lemma_names();
    assert(keep(a, b, i + 1));
    assert forall|k: int| 0 <= k < f implies #[trigger] keep(a, c, k) by { assert(keep(a, b, k)); assert(b.dom().contains(sx(k)) || !b.dom().contains(sx(k))); }
    assert forall|k: int| f <= k < i + 1 implies #[trigger] down(a, c, k) by { if k < i { assert(down(a, b, k)); assert(b.dom().contains(sx(k))); } }
    assert forall|k: int| k > i + 1 implies #[trigger] keep(a, c, k) by { assert(keep(a, b, k)); assert(b.dom().contains(sx(k)) || !b.dom().contains(sx(k))); }
    assert(b.dom().contains(tmp()));
}
pub proof fn lemma_right(a: Parts, b: Parts, c: Parts, f: int, i: int) requires 2 <= i <= f, right(a, b, f, i), a.dom().contains(sx(i - 1)), moved(b, c, sx(i - 1), sx(i)) ensures right(a, c, f, i - 1) {
    lemma_names();
    assert(keep(a, b, i - 1));
    assert forall|k: int| 0 <= k < i - 1 implies #[trigger] keep(a, c, k) by { assert(keep(a, b, k)); assert(b.dom().contains(sx(k)) || !b.dom().contains(sx(k))); }
    assert forall|k: int| i - 1 < k <= f implies #[trigger] up(a, c, k) by { if k > i { assert(up(a, b, k)); assert(b.dom().contains(sx(k))); } }
    assert forall|k: int| k > f implies #[trigger] keep(a, c, k) by { assert(keep(a, b, k)); assert(b.dom().contains(sx(k)) || !b.dom().contains(sx(k))); }
    assert(b.dom().contains(tmp()));
}
pub proof fn lemma_out_end(a: Parts, b: Parts, s: int, n: int) requires has_slides(a, n), 1 <= s <= n, out(a, b, s, n + 1), !a.dom().contains(tmp())
    ensures forall|c: Parts| #[trigger] only_aux(b, c) ==> only_slides(a, c) && has_slides(c, n - 1) && slides(c, n - 1) =~= slides(a, n).remove(s - 1) && !c.dom().contains(sx(n)) && !c.dom().contains(tmp())
{
    lemma_names();
    assert forall|c: Parts| #[trigger] only_aux(b, c) implies only_slides(a, c) && has_slides(c, n - 1) && slides(c, n - 1) =~= slides(a, n).remove(s - 1) && !c.dom().contains(sx(n)) && !c.dom().contains(tmp()) by {
        assert forall|k: int| 1 <= k <= n - 1 implies #[trigger] c.dom().contains(sx(k)) && c[sx(k)] == slides(a, n).remove(s - 1)[k - 1] by {
            assert(same(b, c, sx(k)));
            assert(a.dom().contains(sx(k)) && a.dom().contains(sx(k + 1)));
            if k < s { assert(keep(a, b, k)); } else { assert(down(a, b, k)); }
        }
        assert(same(b, c, sx(n)));
        assert(same(b, c, tmp()));
        assert(same(a, b, tmp()));
        assert forall|n: Seq<char>| !aux(n) && !is_slide(n) implies #[trigger] same(a, c, n) by { assert(same(b, c, n)); assert(same(a, b, n)); }
        assert(only_slides(a, c));
        assert forall|k: int| 1 <= k <= n - 1 implies #[trigger] c.dom().contains(sx(k)) by {}
        assert forall|j: int| 0 <= j < n - 1 implies #[trigger] slides(c, n - 1)[j] == slides(a, n).remove(s - 1)[j] by { assert(c.dom().contains(sx(j + 1))); }
        assert(!b.dom().contains(sx(n + 1 - 1)));
    }
}
// b with v as slide g
pub open spec fn placed(b: Parts, d: Parts, g: int, v: Seq<u8>) -> bool { d.dom().contains(sx(g)) && d[sx(g)] == v && forall|n: Seq<char>| #![trigger same(b, d, n)] #![trigger b.dom().contains(n)] #![trigger d.dom().contains(n)] !aux(n) && n != sx(g) ==> same(b, d, n) }
pub proof fn lemma_room_end(a: Parts, b: Parts, c: Parts, g: int, n: int, v: Seq<u8>) requires has_slides(a, n), 1 <= g <= n + 1, room(a, b, g, n), !a.dom().contains(tmp()), placed(b, c, g, v)
    ensures only_slides(a, c) && has_slides(c, n + 1) && slides(c, n + 1) =~= slides(a, n).insert(g - 1, v) && !c.dom().contains(tmp())
{
    lemma_names();
    assert forall|k: int| 1 <= k <= n + 1 implies #[trigger] c.dom().contains(sx(k)) && c[sx(k)] == slides(a, n).insert(g - 1, v)[k - 1] by {
        if k < g { assert(keep(a, b, k)); assert(a.dom().contains(sx(k))); assert(same(b, c, sx(k))); }
        if k > g { assert(up(a, b, k)); assert(a.dom().contains(sx(k - 1))); assert(same(b, c, sx(k))); }
    }
    assert(same(b, c, tmp())); assert(same(a, b, tmp()));
    assert forall|n: Seq<char>| !aux(n) && !is_slide(n) implies #[trigger] same(a, c, n) by { assert(same(b, c, n)); assert(same(a, b, n)); }
}
// slide f set aside: nothing else moved yet
pub proof fn lemma_set_aside(a: Parts, b: Parts, f: int) requires f >= 1, a.dom().contains(sx(f)), moved(a, b, sx(f), tmp())
    ensures aside(a, b, f), b.dom().contains(tmp()), b[tmp()] == a[sx(f)], !b.dom().contains(sx(f)), forall|k: int| 0 <= k && k != f ==> #[trigger] keep(a, b, k)
{
    lemma_names();
    assert forall|k: int| 0 <= k && k != f implies #[trigger] keep(a, b, k) by { assert(same(a, b, sx(k))); }
    assert forall|n: Seq<char>| !aux(n) && !is_slide(n) && n != tmp() implies #[trigger] same(a, b, n) by {}
}
// what the steps come to: with slide f put at t, the slides in their new order
pub open spec fn order(a: Seq<Seq<u8>>, f: int, t: int) -> Seq<Seq<u8>> { a.remove(f - 1).insert(t - 1, a[f - 1]) }
pub open spec fn ready(a: Parts, b: Parts, f: int, t: int, n: int) -> bool {
    &&& aside(a, b, f) && b.dom().contains(tmp()) && b[tmp()] == a[sx(f)]
    &&& forall|k: int| 1 <= k <= n && k != t ==> #[trigger] b.dom().contains(sx(k)) && b[sx(k)] == order(slides(a, n), f, t)[k - 1]
}
pub open spec fn back(b: Parts, c: Parts, t: int) -> bool {
    &&& c.dom().contains(sx(t)) && c[sx(t)] == b[tmp()] && !c.dom().contains(tmp())
    &&& forall|n: Seq<char>| !aux(n) && n != sx(t) && n != tmp() ==> #[trigger] same(b, c, n)
}
pub proof fn lemma_left_end(a: Parts, b: Parts, f: int, t: int, n: int) requires has_slides(a, n), 1 <= f < t <= n, left(a, b, f, t) ensures ready(a, b, f, t, n) {
    assert forall|k: int| 1 <= k <= n && k != t implies #[trigger] b.dom().contains(sx(k)) && b[sx(k)] == order(slides(a, n), f, t)[k - 1] by {
        assert(a.dom().contains(sx(k)));
        if f <= k < t { assert(down(a, b, k)); } else { assert(keep(a, b, k)); }
    }
}
pub proof fn lemma_right_end(a: Parts, b: Parts, f: int, t: int, n: int) requires has_slides(a, n), 1 <= t < f <= n, right(a, b, f, t) ensures ready(a, b, f, t, n) {
    assert forall|k: int| 1 <= k <= n && k != t implies #[trigger] b.dom().contains(sx(k)) && b[sx(k)] == order(slides(a, n), f, t)[k - 1] by {
        assert(a.dom().contains(sx(k)));
        if t < k <= f { assert(up(a, b, k)); } else { assert(keep(a, b, k)); }
    }
}
pub proof fn lemma_back(a: Parts, b: Parts, c: Parts, f: int, t: int, n: int) requires has_slides(a, n), 1 <= f <= n, 1 <= t <= n, ready(a, b, f, t, n), back(b, c, t), !a.dom().contains(tmp())
    ensures only_slides(a, c), has_slides(c, n), !c.dom().contains(tmp()), slides(c, n) =~= order(slides(a, n), f, t)
{
    lemma_names();
    assert forall|k: int| 1 <= k <= n implies #[trigger] c.dom().contains(sx(k)) && c[sx(k)] == order(slides(a, n), f, t)[k - 1] by {
        if k != t { assert(b.dom().contains(sx(k))); assert(same(b, c, sx(k))); }
    }
    assert forall|j: int| 0 <= j < n implies #[trigger] slides(c, n)[j] == order(slides(a, n), f, t)[j] by { assert(c.dom().contains(sx(j + 1))); }
    assert forall|m: Seq<char>| !aux(m) && !is_slide(m) implies #[trigger] same(a, c, m) by { if m != tmp() { assert(same(a, b, m)); assert(same(b, c, m)); } }
}
//@type opc/package.rs|Package retype parts=VxParts
//@fn opc/package.rs|Package::new
//@ sub: HashMap :: new ( ) =>> VxParts :: new ( )
//@ ensures: vx_ret.parts@ == Map::<Seq<char>, Seq<u8>>::empty()
//@end
//@fn opc/package.rs|Package::get_part
//@ ensures: vx_ret is Some <==> self.parts@.dom().contains(path@), vx_ret is Some ==> vx_ret->Some_0@ == self.parts@[path@]
//@end
//@fn opc/package.rs|Package::add_part
//@ ensures: final(self).parts@ == old(self).parts@.insert(path@, content@)
//@end
//@fn opc/package.rs|Package::remove_part
//@ ensures: final(self).parts@ == old(self).parts@.remove(path@), vx_ret is Some <==> old(self).parts@.dom().contains(path@), vx_ret is Some ==> vx_ret->Some_0@ == old(self).parts@[path@]
//@end
//@fn opc/package.rs|Package::has_part
//@ ensures: vx_ret == self.parts@.dom().contains(path@)
//@end
//@fn opc/package.rs|Package::part_paths
//@ sub: self . parts . keys ( ) . map ( | s | s . as_str ( ) ) . collect ( ) =>> self . parts . names ( )
//@ ensures: forall|k: Seq<char>| #[trigger] self.parts@.dom().contains(k) <==> exists|i: int| 0 <= i < vx_ret@.len() && (#[trigger] vx_ret@[i])@ == k
//@end
impl Package {
    #[verifier::external_body] pub fn get_part_string(&self, path: &str) -> (r: Option<String>) ensures r is Some <==> self.parts@.dom().contains(path@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_part_copy(&self, path: &str) -> (r: Option<Vec<u8>>) ensures r is Some <==> self.parts@.dom().contains(path@), r is Some ==> r->Some_0@ == self.parts@[path@] { unimplemented!() }
    #[verifier::external_body] pub fn vx_part_or_empty(&self, path: &str) -> (r: Vec<u8>) ensures self.parts@.dom().contains(path@) ==> r@ == self.parts@[path@], !self.parts@.dom().contains(path@) ==> r@.len() == 0 { unimplemented!() }
}
//@type oxml/editor.rs|PresentationEditor
impl PresentationEditor {
    pub open spec fn m(&self) -> Parts { self.package.parts@ }
    pub open spec fn n(&self) -> int { self.slide_count as int }
    pub open spec fn view(&self) -> Seq<Seq<u8>> { slides(self.m(), self.n()) }
    // every slide is there
    pub open spec fn wf(&self) -> bool { has_slides(self.m(), self.n()) && self.n() < usize::MAX - 4 && !self.m().dom().contains(tmp()) }
    // an entry not in the list yet: nothing is assumed about it
    #[verifier::external_body] pub fn new_list_entry(&self, list: &Vec<(String, String)>) -> (String, String) { unimplemented!() }
}
//@fn oxml/editor.rs|PresentationEditor::new
//@ ensures: vx_ret.wf(), vx_ret@.len() == 0
//@end
//@fn oxml/editor.rs|PresentationEditor::slide_count
//@ ensures: vx_ret == self@.len()
//@end
//@fn oxml/editor.rs|PresentationEditor::get_slide
//@ sub: PptxError :: NotFound ( messages :: slide_not_found ( index ) ) =>> vx_notfound ( index )
//@ sub: String :: from_utf8_lossy ( xml ) =>> vx_lossy ( xml )
//@ sub: SlideParser :: parse ( & xml_str ) =>> vx_parse ( & xml_str )
//@ requires: self.wf(), index < usize::MAX
//@ ensures: index < self@.len() ==> vx_ret == parsed(lossy(self@[index as int]))
//@ begin: proof { lemma_names(); assert(is_slide(sx(index + 1))); assert(index < self.n() ==> self.m().dom().contains(sx(index + 1))); }
//@end
//@fn oxml/editor.rs|PresentationEditor::slide_list
//@ attr: #[verifier::exec_allows_no_decreases_clause]
//@ sub: . get_part_string ( "ppt/presentation.xml" ) . unwrap_or_default ( ) =>> . vx_any_part ( )
//@ sub: let xml = self . package . vx_any_part ( ) =>> let xml = vx_any_string ( )
//@ sub: & xml [ start .. end ] =>> vx_cut ( & xml , start , end )
//@ sub: list . push ( ( id . to_string ( ) , rid . to_string ( ) ) ) =>> list . push ( ( vx_any_string ( ) , vx_any_string ( ) ) )
//@ ensures: vx_ret@.len() == self.n()
//@ loop 1 inv: true
//@end
//@fn oxml/editor.rs|PresentationEditor::edit_part
//@ header: (&mut self, path: &str)
//@ sub: edit ( & xml ) . into_bytes ( ) =>> vx_enc ( vx_any_string ( ) )
//@ ensures: only(old(self).m(), final(self).m(), path@), final(self).slide_count == old(self).slide_count, final(self).m().dom() =~= old(self).m().dom()
//@end
//@fn oxml/editor.rs|PresentationEditor::set_slide_list
//@ header: (&mut self, list: &Vec<(String, String)>)
//@ ensures: final(self).n() == list@.len(), only_aux(old(self).m(), final(self).m())
//@ begin: proof { lemma_names(); }
//@end
//@fn oxml/editor.rs|PresentationEditor::notes_path
//@ attr: #[verifier::exec_allows_no_decreases_clause]
//@ sub: & rels [ start .. end ] =>> vx_cut ( & rels , start , end )
//@ sub: t . replacen ( "../" , "ppt/" , 1 ) =>> vx_any_string ( )
//@ ensures: vx_ret is Some ==> notes_part(vx_ret->Some_0@)
//@ loop 0 inv: true
//@end
//@fn oxml/editor.rs|notes_rels_path
//@ sub: path . replacen ( "notesSlides/" , "notesSlides/_rels/" , 1 ) =>> vx_any_string ( )
//@ ensures: rel_part(vx_ret@)
//@ end: proof { let q = S".rels"; assert(vx_r@.subrange(vx_r@.len() - q.len(), vx_r@.len() as int) =~= q); }
//@end
//@fn oxml/editor.rs|PresentationEditor::remove_notes
//@ ensures: only_aux(old(self).m(), final(self).m()), final(self).slide_count == old(self).slide_count
//@ begin: proof { lemma_names(); }
//@end
//@fn oxml/editor.rs|PresentationEditor::copy_notes
//@ loop 0 begin: assume(n < i32::MAX);
//@ loop 0 post: proof { lemma_notes(decint(n as int)); }
//@ sub: rels . replace ( & format ! ( "slides/slide{slide_num}.xml\"" ) , & format ! ( "slides/slide{copy_num}.xml\"" ) ) . into_bytes ( ) =>> vx_enc ( vx_any_string ( ) )
//@ sub: . get_part ( & path ) . map ( | n | n . to_vec ( ) ) =>> . vx_part_copy ( & path )
//@ sub: path . replacen ( "ppt/" , "../" , 1 ) =>> vx_any_string ( )
//@ sub: new_path . replacen ( "ppt/" , "../" , 1 ) =>> vx_any_string ( )
//@ sub: . get_part_string ( & notes_rels_path ( & path ) ) . unwrap_or_default ( ) =>> . get_part_string ( & notes_rels_path ( & path ) )
//@ attr: #[verifier::exec_allows_no_decreases_clause]
//@ ensures: only_aux(old(self).m(), final(self).m()), final(self).slide_count == old(self).slide_count
//@ begin: proof { lemma_names(); }
//@ end: proof { assert forall|n: Seq<char>| !aux(n) implies #[trigger] same(old(self).m(), self.m(), n) by { assert(rel_part(sr(copy_num as int))); assert(n != new_path@); assert(old(self).m().dom().contains(n) == self.m().dom().contains(n)); } }
//@end
//@fn oxml/editor.rs|PresentationEditor::retarget
//@ opt: streq
//@ header: (&mut self, old_name: &str)
//@ sub: . part_paths ( ) . into_iter ( ) =>> . part_paths ( )
//@ sub: for path in paths =>> for path in paths . iter ( )
//@ sub: & new_target ( dir ) =>> & vx_any_string ( )
//@ sub: add_part ( path , result . into_bytes ( ) ) =>> add_part ( path . clone ( ) , vx_enc ( result ) )
//@ ensures: only_rels(old(self).m(), final(self).m()), final(self).slide_count == old(self).slide_count
//@ loop 1 begin: let ghost a0 = self.m(); proof { assert(rel_part(paths@[vx_i1 as int]@)); }
//@ loop 1 end: proof { assert(rel_part(path@)); assert forall|n: Seq<char>| !rel_part(n) implies #[trigger] same(old(self).m(), self.m(), n) by { assert(same(old(self).m(), a0, n)); assert(a0.dom().contains(n) == self.m().dom().contains(n)); } }
//@ loop 1 inv: *vx_s1 == paths, only_rels(old(self).m(), self.m()), self.slide_count == old(self).slide_count, forall|i: int| 0 <= i < paths@.len() ==> rel_part(#[trigger] paths@[i]@)
//@ loop 0 inv: tyv::<String>(vx_r0), forall|i: int| 0 <= i < vx_r0@.len() ==> rel_part(#[trigger] vx_r0@[i]@)
//@end
//@fn oxml/editor.rs|PresentationEditor::rename_slide
//@ requires: !rel_part(S"ppt/slides/" + old_name@), !rel_part(S"ppt/slides/" + new_name@)
//@ ensures: moved(old(self).m(), final(self).m(), S"ppt/slides/" + old_name@, S"ppt/slides/" + new_name@), final(self).slide_count == old(self).slide_count
//@ begin: proof { lemma_rels_of(S"ppt/slides/_rels/" + old_name@); lemma_rels_of(S"ppt/slides/_rels/" + new_name@); }
//@end
//@fn oxml/editor.rs|PresentationEditor::renumber_slide
//@ ensures: vx_ret is Ok, final(self).slide_count == old(self).slide_count, moved(old(self).m(), final(self).m(), sx(old_num as int), sx(new_num as int))
//@ begin: proof { lemma_names(); assert(is_slide(sx(old_num as int)) && is_slide(sx(new_num as int)) && rel_part(sr(old_num as int)) && rel_part(sr(new_num as int))); }
//@ end: proof { let a = old(self).m(); let b = self.m(); let x = sx(old_num as int); let y = sx(new_num as int); assert(old_path@ =~= x && old_rels@ =~= sr(old_num as int));
//@ assert forall|n: Seq<char>| !rel_part(n) && n != x && n != y implies #[trigger] same(a, b, n) by { assert(n != sr(old_num as int) && n != sr(new_num as int)); assert(a.dom().contains(n) == b.dom().contains(n)); }
//@ assert(only2(a, b, x, y)); if !a.dom().contains(x) { assert(same(a, b, x)); assert(same(a, b, y)); } }
//@end
//@fn oxml/editor.rs|PresentationEditor::add_slide
//@ sub: PptxError :: NotFound ( messages :: slide_not_found ( index ) ) =>> vx_notfound ( index )
//@ sub: create_slide_xml_with_content ( new_index , & content , & [ ] , None ) =>> vx_slide_xml ( new_index , & content )
//@ sub: create_slide_rels_xml_for_layout ( content . layout . layout_number ( ) ) =>> vx_layout_rels ( & content . layout )
//@ sub: slide_xml . into_bytes ( ) =>> vx_enc ( slide_xml )
//@ sub: slide_rels_xml . into_bytes ( ) =>> vx_enc ( slide_rels_xml )
//@ requires: old(self).wf()
//@ ensures: only_slides(old(self).m(), final(self).m()), has_slides(final(self).m(), final(self).n()), !final(self).m().dom().contains(tmp()), vx_ret is Ok && vx_ret->Ok_0 == old(self)@.len(), final(self)@ =~= old(self)@.push(enc(slide_text(content)))
//@ begin: proof { lemma_names(); assert(is_slide(sx(self.n() + 1)) && rel_part(sr(self.n() + 1))); }
//@ end: proof { let g = self.n(); let a = old(self).m(); assert forall|n: Seq<char>| !aux(n) && n != sx(g) implies #[trigger] same(a, self.m(), n) by { assert(n != sr(g)); assert(a.dom().contains(n) == self.m().dom().contains(n)); }
//@ assert(self.m().dom().contains(sx(g))); assert forall|k: int| 0 <= k implies #[trigger] keep(a, a, k) by {}
//@ lemma_room_end(old(self).m(), old(self).m(), self.m(), self.n(), old(self).n(), enc(slide_text(content))); assert(old(self)@.insert(old(self).n(), enc(slide_text(content))) =~= old(self)@.push(enc(slide_text(content)))); }
//@end
//@fn oxml/editor.rs|PresentationEditor::update_slide
//@ sub: PptxError :: NotFound ( messages :: slide_not_found ( index ) ) =>> vx_notfound ( index )
//@ sub: create_slide_xml_with_content ( slide_num , & content , & [ ] , None ) =>> vx_slide_xml ( slide_num , & content )
//@ sub: slide_xml . into_bytes ( ) =>> vx_enc ( slide_xml )
//@ requires: old(self).wf()
//@ ensures: only_slides(old(self).m(), final(self).m()), final(self).wf(), vx_ret is Ok <==> index < old(self)@.len(), vx_ret is Err ==> *final(self) == *old(self), vx_ret is Ok ==> final(self)@ =~= old(self)@.update(index as int, enc(slide_text(content)))
//@ begin: proof { lemma_names(); assert(is_slide(sx(index + 1))); }
//@end
//@fn oxml/editor.rs|PresentationEditor::remove_slide
//@ sub: PptxError :: NotFound ( messages :: slide_not_found ( index ) ) =>> vx_notfound ( index )
//@ requires: old(self).wf()
//@ ensures: only_slides(old(self).m(), final(self).m()), final(self).wf(), vx_ret is Ok <==> index < old(self)@.len(), vx_ret is Err ==> *final(self) == *old(self), vx_ret is Ok ==> final(self)@ =~= old(self)@.remove(index as int) && !final(self).m().dom().contains(sx(old(self).n()))
//@ begin: proof { lemma_names(); assert(is_slide(sx(index + 1)) && rel_part(sr(index + 1))); }
//@ loop 0 inv: has_slides(old(self).m(), old(self).n()), 1 <= slide_num <= old(self).n() < usize::MAX - 4, self.slide_count == old(self).slide_count, list@.len() == old(self).n() - 1, vx_b0 == slide_num + 1, vx_e0 == old(self).n(), out(old(self).m(), self.m(), slide_num as int, if vx_d0 { vx_e0 + 1 } else { vx_i0 as int }), !self.m().dom().contains(tmp())
//@ loop 0 pre: proof { lemma_names(); let a = old(self).m(); let b = self.m(); assert(out(a, b, slide_num as int, slide_num + 1)) by {
//@ assert forall|k: int| 0 <= k < slide_num implies #[trigger] keep(a, b, k) by { assert(same(a, b, sx(k))); }
//@ assert forall|k: int| k >= slide_num + 1 implies #[trigger] keep(a, b, k) by { assert(same(a, b, sx(k))); } } }
//@ loop 0 begin: let ghost b0 = self.m(); proof { lemma_names(); }
//@ loop 0 end: proof { lemma_out(old(self).m(), b0, self.m(), slide_num as int, i as int); }
//@ loop 0 post: proof { lemma_out_end(old(self).m(), self.m(), slide_num as int, old(self).n()); }
//@end
//@fn oxml/editor.rs|PresentationEditor::duplicate_slide
//@ sub: PptxError :: NotFound ( messages :: slide_not_found ( index ) ) =>> vx_notfound ( index )
//@ sub: . get_part ( & rels_path ) . unwrap_or_default ( ) . to_vec ( ) =>> . vx_part_or_empty ( & rels_path )
//@ requires: old(self).wf()
//@ ensures: only_slides(old(self).m(), final(self).m()), has_slides(final(self).m(), final(self).n()), !final(self).m().dom().contains(tmp()), vx_ret is Ok <==> index < old(self)@.len(), vx_ret is Err ==> *final(self) == *old(self), vx_ret is Ok ==> vx_ret->Ok_0 == index + 1 && final(self)@ =~= old(self)@.insert(index + 1, old(self)@[index as int])
//@ begin: let ghost mut b1 = self.m(); proof { lemma_names(); assert(is_slide(sx(index + 1)) && is_slide(sx(index + 2)) && rel_part(sr(index + 1)) && rel_part(sr(index + 2))); }
//@ loop 0 inv: has_slides(old(self).m(), old(self).n()), 1 <= new_num <= old(self).n() + 1, old(self).n() < usize::MAX - 4, self.slide_count == old(self).slide_count, list@.len() == old(self).n(), vx_b0 == new_num + 1, vx_e0 == old(self).n() + 1, room(old(self).m(), self.m(), if vx_d0 { vx_b0 - 1 } else { vx_i0 as int }, old(self).n()), slide_data@ == old(self)@[index as int], slide_num == index + 1, slide_path@ == sx(slide_num as int)
//@ loop 0 pre: proof { lemma_names(); let a = old(self).m(); assert(room(a, self.m(), old(self).n() + 1, old(self).n())) by {
//@ assert forall|k: int| 0 <= k implies #[trigger] keep(a, self.m(), k) by { assert(same(a, self.m(), sx(k))); } } }
//@ loop 0 begin: let ghost b0 = self.m(); proof { lemma_names(); assert(old(self).m().dom().contains(sx(vx_i0 - 1))); }
//@ loop 0 end: proof { lemma_room(old(self).m(), b0, self.m(), i as int, old(self).n()); }
//@ loop 0 post: proof { b1 = self.m(); }
//@ end: proof { lemma_names(); assert forall|n: Seq<char>| !aux(n) && n != sx(new_num as int) implies #[trigger] same(b1, self.m(), n) by { assert(n != sr(new_num as int)); assert(b1.dom().contains(n) == self.m().dom().contains(n)); }
//@ assert(self.m().dom().contains(sx(new_num as int)));
//@  lemma_room_end(old(self).m(), b1, self.m(), new_num as int, old(self).n(), old(self)@[index as int]); }
//@end
//@fn oxml/editor.rs|PresentationEditor::insert_slide
//@ sub: PptxError :: NotFound ( messages :: slide_not_found ( index ) ) =>> vx_notfound ( index )
//@ sub: create_slide_xml_with_content ( new_num , & content , & [ ] , None ) =>> vx_slide_xml ( new_num , & content )
//@ sub: create_slide_rels_xml_for_layout ( content . layout . layout_number ( ) ) =>> vx_layout_rels ( & content . layout )
//@ sub: slide_xml . into_bytes ( ) =>> vx_enc ( slide_xml )
//@ sub: slide_rels_xml . into_bytes ( ) =>> vx_enc ( slide_rels_xml )
//@ requires: old(self).wf()
//@ ensures: only_slides(old(self).m(), final(self).m()), has_slides(final(self).m(), final(self).n()), !final(self).m().dom().contains(tmp()), vx_ret is Ok <==> index <= old(self)@.len(), vx_ret is Err ==> *final(self) == *old(self), vx_ret is Ok ==> vx_ret->Ok_0 == index && final(self)@ =~= old(self)@.insert(index as int, enc(slide_text(content)))
//@ begin: let ghost mut b1 = self.m(); proof { lemma_names(); assert(is_slide(sx(index + 1)) && rel_part(sr(index + 1))); }
//@ loop 0 inv: has_slides(old(self).m(), old(self).n()), 1 <= new_num <= old(self).n() + 1, old(self).n() < usize::MAX - 4, self.slide_count == old(self).slide_count, list@.len() == old(self).n(), vx_b0 == new_num + 1, vx_e0 == old(self).n() + 1, room(old(self).m(), self.m(), if vx_d0 { vx_b0 - 1 } else { vx_i0 as int }, old(self).n())
//@ loop 0 pre: proof { lemma_names(); let a = old(self).m(); assert(room(a, self.m(), old(self).n() + 1, old(self).n())) by {
//@ assert forall|k: int| 0 <= k implies #[trigger] keep(a, self.m(), k) by { assert(same(a, self.m(), sx(k))); } } }
//@ loop 0 begin: let ghost b0 = self.m(); proof { lemma_names(); assert(old(self).m().dom().contains(sx(vx_i0 - 1))); }
//@ loop 0 end: proof { lemma_room(old(self).m(), b0, self.m(), i as int, old(self).n()); }
//@ loop 0 post: proof { b1 = self.m(); }
//@ end: proof { lemma_names(); assert forall|n: Seq<char>| !aux(n) && n != sx(new_num as int) implies #[trigger] same(b1, self.m(), n) by { assert(n != sr(new_num as int)); assert(b1.dom().contains(n) == self.m().dom().contains(n)); }
//@ assert(self.m().dom().contains(sx(new_num as int)));
//@  lemma_room_end(old(self).m(), b1, self.m(), new_num as int, old(self).n(), enc(slide_text(content))); }
//@end
//@fn oxml/editor.rs|PresentationEditor::reorder_slide
//@ sub: PptxError :: NotFound ( messages :: slide_not_found ( index ) ) =>> vx_notfound ( index )
//@ sub: PptxError :: NotFound ( messages :: slide_not_found ( from_index . max ( to_index ) , ) ) =>> vx_notfound ( from_index )
//@ requires: old(self).wf()
//@ ensures: only_slides(old(self).m(), final(self).m()), final(self).wf(), vx_ret is Ok <==> (from_index < old(self)@.len() && to_index < old(self)@.len()), vx_ret is Err ==> *final(self) == *old(self), vx_ret is Ok ==> final(self)@ =~= old(self)@.remove(from_index as int).insert(to_index as int, old(self)@[from_index as int])
//@ begin: let ghost mut b1 = self.m(); proof { lemma_names(); lemma_tmp(); assert(is_slide(sx(from_index + 1)) && is_slide(sx(to_index + 1))); }
//@ loop 0 inv: has_slides(old(self).m(), old(self).n()), 1 <= from_num < to_num <= old(self).n() < usize::MAX - 4, self.slide_count == old(self).slide_count, list@.len() == old(self).n(), vx_b0 == from_num, vx_e0 == to_num, left(old(self).m(), self.m(), from_num as int, vx_i0 as int)
//@ loop 0 pre: proof { lemma_names(); lemma_tmp(); lemma_set_aside(old(self).m(), self.m(), from_num as int); assert(left(old(self).m(), self.m(), from_num as int, from_num as int)); }
//@ loop 0 begin: let ghost b0 = self.m(); proof { lemma_names(); assert(old(self).m().dom().contains(sx(vx_i0 + 1))); }
//@ loop 0 end: proof { lemma_left(old(self).m(), b0, self.m(), from_num as int, i as int); }
//@ loop 0 post: proof { b1 = self.m(); lemma_left_end(old(self).m(), b1, from_num as int, to_num as int, old(self).n()); }
//@ loop 1 inv: has_slides(old(self).m(), old(self).n()), 1 <= to_num < from_num <= old(self).n() < usize::MAX - 4, self.slide_count == old(self).slide_count, list@.len() == old(self).n(), vx_b1 == to_num, vx_e1 == from_num, right(old(self).m(), self.m(), from_num as int, vx_i1 as int)
//@ loop 1 pre: proof { lemma_names(); lemma_tmp(); lemma_set_aside(old(self).m(), self.m(), from_num as int); assert(right(old(self).m(), self.m(), from_num as int, from_num as int)); }
//@ loop 1 begin: let ghost b0 = self.m(); proof { lemma_names(); assert(old(self).m().dom().contains(sx(vx_i1 - 1))); }
//@ loop 1 end: proof { lemma_right(old(self).m(), b0, self.m(), from_num as int, i + 1); }
//@ loop 1 post: proof { b1 = self.m(); lemma_right_end(old(self).m(), b1, from_num as int, to_num as int, old(self).n()); }
//@ end: proof { lemma_names(); let c = self.m(); let t = to_num as int; assert forall|n: Seq<char>| !aux(n) && n != sx(t) && n != tmp() implies #[trigger] same(b1, c, n) by { assert(b1.dom().contains(n) == c.dom().contains(n)); }
//@ assert(c.dom().contains(sx(t))); assert(!c.dom().contains(tmp())); assert(back(b1, c, t));
//@ lemma_back(old(self).m(), b1, c, from_num as int, t, old(self).n()); }
//@end
//%extras
} // verus!
fn main() {}
