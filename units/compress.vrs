//@include prelude.rs
//@include bytes.inc
//@include parts.inc
verus! {
//@lits
//@opt opaquelits, optmatch, forown
//@known Package::get_part, Package::add_part, Package::remove_part, Package::part_paths, scan_tags, XmlTag::attr, rels_source_dir, resolve_rel_target
// ------------------------------------------------- stand-ins (assumed by their documented meaning)
pub type Result<T, E = PptxError> = core::result::Result<T, E>;
pub enum PptxError { Generic(String), InvalidXml(String), NotFound(String) }
// the package as its own unit (C08) proves it: a table of parts by name
pub struct Package { pub parts: VxParts }
impl Package {
    #[verifier::external_body] pub fn get_part(&self, path: &str) -> (r: Option<&[u8]>) ensures r is Some <==> self.parts@.dom().contains(path@), r is Some ==> r->Some_0@ == self.parts@[path@] { unimplemented!() }
    #[verifier::external_body] pub fn add_part(&mut self, path: String, content: Vec<u8>) ensures final(self).parts@ == old(self).parts@.insert(path@, content@) { unimplemented!() }
    #[verifier::external_body] pub fn remove_part(&mut self, path: &str) -> (r: Option<Vec<u8>>) ensures final(self).parts@ == old(self).parts@.remove(path@) { unimplemented!() }
    #[verifier::external_body] pub fn part_paths(&self) -> (r: Vec<&str>) ensures self.parts@.dom().finite(), forall|k: Seq<char>| #[trigger] self.parts@.dom().contains(k) <==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == k, forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i])@ != (#[trigger] r@[j])@ { unimplemented!() }
}
// std HashSet<String>
#[verifier::external_body] pub struct HashSet { s: std::collections::HashSet<String> }
impl HashSet {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, k: &str) -> (r: bool) ensures r == self@.contains(k@) { unimplemented!() }
}
//@type opc/compress.rs|CompressionLevel
//@type opc/compress.rs|CompressionOptions
//@type opc/compress.rs|CompressionResult
//@type opc/compress.rs|PptxAnalysis
// ------------------------------------------------- texts and the XML in them (C11's replay compares the reading with an independent parser)
pub mod vxb { use super::*;
pub uninterp spec fn enc(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn is_text(b: Seq<u8>) -> bool;
pub uninterp spec fn txt(b: Seq<u8>) -> Seq<char>;
pub broadcast axiom fn ax_enc(s: Seq<char>) ensures #![trigger enc(s)] is_text(enc(s)), txt(enc(s)) == s;
pub broadcast axiom fn ax_txt(b: Seq<u8>) ensures #![trigger txt(b)] is_text(b) ==> enc(txt(b)) == b;
}
use vxb::*;
broadcast use {vxb::ax_enc, vxb::ax_txt};
#[verifier::external_body] pub fn vx_utf8(b: &[u8]) -> (r: Option<&str>) ensures r is Some <==> is_text(b@), r is Some ==> r->Some_0@ == txt(b@) { std::str::from_utf8(b).ok() }
pub trait VxInto { fn vx_into_bytes(self) -> (r: Vec<u8>) ensures r@ == enc(self.isv()); spec fn isv(&self) -> Seq<char>; }
impl VxInto for String { open spec fn isv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_into_bytes(self) -> (r: Vec<u8>) { self.into_bytes() } }
use std::ops::Range;
pub struct XmlTag { pub name: String, pub attributes: Vec<(String, String)>, pub span: Range<usize>, pub inner: Range<usize> }
pub struct TagV { pub name: Seq<char>, pub attrs: Map<Seq<char>, Seq<char>>, pub span: (int, int), pub inner: (int, int) }
pub uninterp spec fn tag_attrs(t: XmlTag) -> Map<Seq<char>, Seq<char>>;
impl XmlTag { #[verifier::external_body] pub fn attr(&self, name: &str) -> (r: Option<&str>) ensures r is Some <==> tag_attrs(*self).dom().contains(name@), r is Some ==> r->Some_0@ == tag_attrs(*self)[name@] { unimplemented!() } }
pub open spec fn tagv(t: XmlTag) -> TagV { TagV { name: t.name@, attrs: tag_attrs(t), span: (t.span.start as int, t.span.end as int), inner: (t.inner.start as int, t.inner.end as int) } }
pub open spec fn tagvs(v: Seq<XmlTag>) -> Seq<TagV> { v.map_values(|t: XmlTag| tagv(t)) }
pub uninterp spec fn wf(x: Seq<char>) -> bool;
// why a text is not well-formed
pub uninterp spec fn why(x: Seq<char>) -> Seq<char>;
// the elements of a text, none where it is not well-formed; their places lie between characters
pub uninterp spec fn tags(x: Seq<char>) -> Seq<TagV>;
pub open spec fn onchar(x: Seq<char>, b: int) -> bool { exists|i: int| at_byte(x, i, b) }
pub open spec fn placed(x: Seq<char>, t: TagV) -> bool { onchar(x, t.span.0) && onchar(x, t.span.1) && onchar(x, t.inner.0) && onchar(x, t.inner.1) && t.span.0 <= t.inner.0 <= t.inner.1 <= t.span.1 }
pub open spec fn all_placed(x: Seq<char>, v: Seq<TagV>) -> bool { forall|i: int| 0 <= i < v.len() ==> placed(x, #[trigger] v[i]) }
pub axiom fn ax_placed(x: Seq<char>) ensures all_placed(x, tags(x));
#[verifier::external_body] pub fn vx_tags(x: &str) -> (r: Vec<XmlTag>) ensures tagvs(r@) == tags(x@) { unimplemented!() }
#[verifier::external_body] pub fn scan_tags(x: &str) -> (r: Result<Vec<XmlTag>, String>) ensures r is Ok ==> tagvs(r->Ok_0@) == tags(x@), r is Ok <==> wf(x@), r is Err ==> tags(x@).len() == 0 { unimplemented!() }
pub open spec fn readable(p: Parts, n: Seq<char>) -> bool { p.dom().contains(n) && is_text(p[n]) }
pub open spec fn text_in(p: Parts, n: Seq<char>) -> Seq<char> { txt(p[n]) }
// ---- texts
pub open spec fn among(v: Seq<String>, k: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && (#[trigger] v[i])@ == n }
pub open spec fn amongr(v: Seq<&str>, k: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && (#[trigger] v[i])@ == n }
pub proof fn lemma_among(v: Seq<String>, k: int) requires 0 <= k < v.len() ensures forall|n: Seq<char>| #![trigger among(v, k + 1, n)] among(v, k + 1, n) <==> among(v, k, n) || n == v[k]@ { assert forall|n: Seq<char>| #![trigger among(v, k + 1, n)] among(v, k, n) || n == v[k]@ implies among(v, k + 1, n) by { if among(v, k, n) { let i = choose|i: int| 0 <= i < k && (#[trigger] v[i])@ == n; assert(v[i]@ == n); } } }
pub proof fn lemma_amongr(v: Seq<&str>, k: int) requires 0 <= k < v.len() ensures forall|n: Seq<char>| #![trigger amongr(v, k + 1, n)] amongr(v, k + 1, n) <==> amongr(v, k, n) || n == v[k]@ { assert forall|n: Seq<char>| #![trigger amongr(v, k + 1, n)] amongr(v, k, n) || n == v[k]@ implies amongr(v, k + 1, n) by { if amongr(v, k, n) { let i = choose|i: int| 0 <= i < k && (#[trigger] v[i])@ == n; assert(v[i]@ == n); } } }
pub proof fn lemma_pushed(v: Seq<String>, w: Seq<String>) requires w.len() == v.len() + 1, w.drop_last() == v ensures forall|n: Seq<char>| #![trigger among(w, w.len() as int, n)] among(w, w.len() as int, n) <==> among(v, v.len() as int, n) || n == w.last()@ {
    lemma_among(w, v.len() as int);
    assert forall|n: Seq<char>| #![trigger among(w, w.len() as int, n)] among(w, v.len() as int, n) == among(v, v.len() as int, n) by { if among(v, v.len() as int, n) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == n; assert(w[i] == v[i]); } if among(w, v.len() as int, n) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] w[i])@ == n; assert(w[i] == v[i]); } }
}
pub fn vx_own(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
pub open spec fn has(t: TagV, a: Seq<char>) -> bool { t.attrs.dom().contains(a) }
pub open spec fn val(t: TagV, a: Seq<char>) -> Seq<char> { if has(t, a) { t.attrs[a] } else { Seq::<char>::empty() } }
#[verifier::external_body] pub fn vx_is(o: Option<&str>, s: &str) -> (r: bool) ensures r == (o is Some && o->Some_0@ == s@) { o == Some(s) }
// ---- cutting stretches out of a text
pub open spec fn spanv(v: Seq<Range<usize>>) -> Seq<(int, int)> { v.map_values(|r: Range<usize>| (r.start as int, r.end as int)) }
// what is kept of the text before the k-th stretch, and where the next piece starts
pub open spec fn cut_upto(x: Seq<char>, v: Seq<(int, int)>, k: int) -> (Seq<char>, int) decreases k {
    if k <= 0 { (Seq::<char>::empty(), 0) } else { let (t, f) = cut_upto(x, v, k - 1); if v[k - 1].0 >= f { (t + byte_sub(x, f, v[k - 1].0), v[k - 1].1) } else { (t, f) } }
}
pub open spec fn cut(x: Seq<char>, v: Seq<(int, int)>) -> Seq<char> { let (t, f) = cut_upto(x, v, v.len() as int); t + byte_sub(x, f, blen(x)) }
pub open spec fn inside(x: Seq<char>, v: Seq<(int, int)>) -> bool { forall|i: int| 0 <= i < v.len() ==> onchar(x, (#[trigger] v[i]).0) && onchar(x, v[i].1) && v[i].0 <= v[i].1 }
pub proof fn lemma_onchar(x: Seq<char>, a: int, b: int) requires onchar(x, a), onchar(x, b), a <= b ensures byte_range(x, a, b), b <= blen(x) {
    let i = choose|i: int| at_byte(x, i, a); let j = choose|j: int| at_byte(x, j, b);
    lemma_byte_sub(x, i, j, a, b); lemma_blen_le(x, j);
}
pub proof fn lemma_onchar_ends(x: Seq<char>) ensures onchar(x, 0), onchar(x, blen(x)) { lemma_at_end(x); }
pub fn vx_kept_len(o: usize) -> (r: usize) ensures r == o { o }
#[verifier::external_body] pub fn vx_percent(o: usize, c: usize) -> (r: f64) { ((o as f64 - c as f64) / o as f64) * 100.0 }
//@fn CompressionLevel::image_quality
//@ ensures: vx_ret == (match *self { CompressionLevel::Light => 95u8, CompressionLevel::Medium => 85u8, CompressionLevel::Aggressive => 70u8, CompressionLevel::Custom(q) => q })
//@end
//@fn CompressionLevel::max_image_dimension
//@ ensures: vx_ret == (match *self { CompressionLevel::Light => 2048u32, CompressionLevel::Aggressive => 1280u32, _ => 1600u32 })
//@end
//@fn compression_result
//@ sub: ((original_size as f64 - compressed_size as f64) / original_size as f64) * 100.0 =>> vx_percent(original_size, compressed_size)
//@ ensures: vx_ret.original_size == original_size, vx_ret.compressed_size == compressed_size, vx_ret.unused_media_removed == unused_media_removed, vx_ret.images_compressed == 0, vx_ret.target_achieved == (options.target_size == 0 || compressed_size <= options.target_size)
//@end
//@fn opc/compress.rs|part_text
//@ sub: std::str::from_utf8(package.get_part(path)?).ok() =>> vx_utf8(package.get_part(path)?)
//@ ensures: vx_ret is Some <==> readable(package.parts@, path@), vx_ret is Some ==> vx_ret->Some_0@ == text_in(package.parts@, path@)
//@end
// ------------------------------------------------- what a relationship leads to
pub uninterp spec fn dir_of(f: Seq<char>) -> Seq<char>;
pub uninterp spec fn joined(base: Seq<char>, t: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn rels_source_dir(f: &str) -> (r: String) ensures r@ == dir_of(f@) { unimplemented!() }
#[verifier::external_body] pub fn resolve_rel_target(base: &str, t: &str) -> (r: String) ensures r@ == joined(base@, t@) { unimplemented!() }
pub open spec fn inward(t: TagV) -> bool { !(has(t, S"TargetMode") && val(t, S"TargetMode") == S"External") && has(t, S"Target") }
pub open spec fn to(t: TagV, f: Seq<char>) -> Seq<char> { joined(dir_of(f), val(t, S"Target")) }
//@fn internal_target
//@ sub: tag.attr("TargetMode") == Some("External") =>> vx_is(tag.attr("TargetMode"), "External")
//@ ensures: vx_ret is Some <==> inward(tagv(*tag)), vx_ret is Some ==> vx_ret->Some_0@ == joined(base@, val(tagv(*tag), S"Target"))
//@end
// ------------------------------------------------- unused media
pub open spec fn is_rels(n: Seq<char>) -> bool { has_suffix(n, S".rels") }
pub open spec fn is_media(n: Seq<char>) -> bool { has_prefix(n, S"ppt/media/") && !is_rels(n) }
pub open spec fn uses_upto(v: Seq<TagV>, k: int, f: Seq<char>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && inward(#[trigger] v[i]) && to(v[i], f) == n }
pub open spec fn uses(p: Parts, f: Seq<char>, n: Seq<char>) -> bool { uses_upto(tags(text_in(p, f)), tags(text_in(p, f)).len() as int, f, n) }
pub proof fn lemma_uses(v: Seq<TagV>, k: int, f: Seq<char>) requires 0 <= k < v.len() ensures forall|n: Seq<char>| #![trigger uses_upto(v, k + 1, f, n)] uses_upto(v, k + 1, f, n) <==> uses_upto(v, k, f, n) || (inward(v[k]) && to(v[k], f) == n) { assert forall|n: Seq<char>| #![trigger uses_upto(v, k + 1, f, n)] uses_upto(v, k, f, n) || (inward(v[k]) && to(v[k], f) == n) implies uses_upto(v, k + 1, f, n) by { if uses_upto(v, k, f, n) { let i = choose|i: int| 0 <= i < k && inward(#[trigger] v[i]) && to(v[i], f) == n; assert(inward(v[i])); } } }
// a relationships part in a package that can be read
pub open spec fn plain(p: Parts, f: Seq<char>) -> bool { readable(p, f) && wf(text_in(p, f)) }
pub open spec fn all_plain(p: Parts) -> bool { forall|f: Seq<char>| p.dom().contains(f) && is_rels(f) ==> #[trigger] plain(p, f) }
// some relationship of the package leads to part n
pub open spec fn in_use(p: Parts, n: Seq<char>) -> bool { exists|f: Seq<char>| p.dom().contains(f) && is_rels(f) && #[trigger] uses(p, f, n) }
pub open spec fn in_use_upto(p: Parts, v: Seq<&str>, k: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && is_rels((#[trigger] v[i])@) && uses(p, v[i]@, n) }
pub proof fn lemma_in_use(p: Parts, v: Seq<&str>, k: int) requires 0 <= k < v.len() ensures forall|n: Seq<char>| #![trigger in_use_upto(p, v, k + 1, n)] in_use_upto(p, v, k + 1, n) <==> in_use_upto(p, v, k, n) || (is_rels(v[k]@) && uses(p, v[k]@, n)) { assert forall|n: Seq<char>| #![trigger in_use_upto(p, v, k + 1, n)] in_use_upto(p, v, k, n) || (is_rels(v[k]@) && uses(p, v[k]@, n)) implies in_use_upto(p, v, k + 1, n) by { if in_use_upto(p, v, k, n) { let i = choose|i: int| 0 <= i < k && is_rels((#[trigger] v[i])@) && uses(p, v[i]@, n); assert(is_rels(v[i]@)); } } }
pub open spec fn spare(p: Parts, n: Seq<char>) -> bool { all_plain(p) && p.dom().contains(n) && is_media(n) && !in_use(p, n) }
// the package without its spare media: everything else as it was
pub open spec fn pruned(p: Parts) -> Parts { Map::new(p.dom().filter(|n: Seq<char>| !spare(p, n)), |n: Seq<char>| p[n]) }
pub open spec fn distinct(v: Seq<String>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i])@ != (#[trigger] v[j])@ }
//@fn remove_unused_media
//@ begin: let ghost vx_p = old(package).parts@;
//@ loop 0 inv: *package == *old(package), vx_p == package.parts@, tyv::<String>(media_paths), vx_p.dom().finite(), forall|k: Seq<char>| #[trigger] vx_p.dom().contains(k) <==> exists|i: int| 0 <= i < vx_s0@.len() && (#[trigger] vx_s0@[i])@ == k, forall|i: int, j: int| 0 <= i < j < vx_s0@.len() ==> (#[trigger] vx_s0@[i])@ != (#[trigger] vx_s0@[j])@, forall|i: int| 0 <= i < vx_i0 && is_rels((#[trigger] vx_s0@[i])@) ==> plain(vx_p, vx_s0@[i]@), forall|n: Seq<char>| #[trigger] referenced@.contains(n) <==> in_use_upto(vx_p, vx_s0@, vx_i0 as int, n), distinct(media_paths@), forall|n: Seq<char>| #[trigger] among(media_paths@, media_paths@.len() as int, n) <==> amongr(vx_s0@, vx_i0 as int, n) && is_media(n)
//@ loop 0 begin: let ghost vx_r = referenced@; let ghost vx_m = media_paths@; proof { lemma_in_use(vx_p, vx_s0@, vx_i0 as int); lemma_amongr(vx_s0@, vx_i0 as int); assert(vx_p.dom().contains(vx_s0@[vx_i0 as int]@)); if is_rels(vx_s0@[vx_i0 as int]@) && !plain(vx_p, vx_s0@[vx_i0 as int]@) { assert(!all_plain(vx_p)); assert(pruned(vx_p) =~= vx_p); } }
//@ loop 0 end: proof { if media_paths@.len() > vx_m.len() { assert(media_paths@.drop_last() =~= vx_m); lemma_pushed(vx_m, media_paths@); assert forall|i: int| 0 <= i < vx_m.len() implies (#[trigger] media_paths@[i])@ != media_paths@.last()@ by { assert(among(vx_m, vx_m.len() as int, vx_m[i]@)); let j = choose|j: int| 0 <= j < vx_i0 - 1 && (#[trigger] vx_s0@[j])@ == vx_m[i]@; assert(vx_s0@[j]@ != vx_s0@[vx_i0 - 1]@); } } }
//@ loop 0 post: proof { assert forall|f: Seq<char>| vx_p.dom().contains(f) && is_rels(f) implies #[trigger] plain(vx_p, f) by { let i = choose|i: int| 0 <= i < vx_s0@.len() && (#[trigger] vx_s0@[i])@ == f; assert(plain(vx_p, vx_s0@[i]@)); } assert(all_plain(vx_p)); assert forall|n: Seq<char>| #[trigger] referenced@.contains(n) <==> in_use(vx_p, n) by { if in_use_upto(vx_p, vx_s0@, vx_s0@.len() as int, n) { let i = choose|i: int| 0 <= i < vx_s0@.len() && is_rels((#[trigger] vx_s0@[i])@) && uses(vx_p, vx_s0@[i]@, n); assert(vx_p.dom().contains(vx_s0@[i]@)); assert(uses(vx_p, vx_s0@[i]@, n)); } if in_use(vx_p, n) { let f = choose|f: Seq<char>| vx_p.dom().contains(f) && is_rels(f) && #[trigger] uses(vx_p, f, n); let i = choose|i: int| 0 <= i < vx_s0@.len() && (#[trigger] vx_s0@[i])@ == f; assert(is_rels(vx_s0@[i]@)); } } assert forall|n: Seq<char>| #[trigger] among(media_paths@, media_paths@.len() as int, n) <==> vx_p.dom().contains(n) && is_media(n) by { assert(amongr(vx_s0@, vx_i0 as int, n) <==> vx_p.dom().contains(n)); } }
//@ loop 1 inv: vx_s1@ == tags@, tagvs(tags@) == self::tags(xml@), xml@ == text_in(vx_p, path@), base@ == dir_of(path@), forall|n: Seq<char>| #[trigger] referenced@.contains(n) <==> vx_r.contains(n) || uses_upto(self::tags(xml@), vx_i1 as int, path@, n)
//@ loop 1 begin: proof { lemma_uses(self::tags(xml@), vx_i1 as int, path@); assert(tagvs(tags@)[vx_i1 as int] == tagv(tags@[vx_i1 as int])); }
//@ loop 2 inv: vx_p == old(package).parts@, all_plain(vx_p), distinct(vx_s2@), removed <= vx_i2, vx_p.dom().finite(), package.parts@.dom().finite(), package.parts@.dom().len() + removed == vx_p.dom().len(), forall|n: Seq<char>| #[trigger] referenced@.contains(n) <==> in_use(vx_p, n), forall|n: Seq<char>| #[trigger] among(vx_s2@, vx_s2@.len() as int, n) <==> vx_p.dom().contains(n) && is_media(n), forall|n: Seq<char>| #[trigger] package.parts@.dom().contains(n) <==> vx_p.dom().contains(n) && !(among(vx_s2@, vx_i2 as int, n) && !in_use(vx_p, n)), forall|n: Seq<char>| #[trigger] package.parts@.dom().contains(n) ==> package.parts@[n] == vx_p[n]
//@ loop 2 begin: proof { lemma_among(vx_s2@, vx_i2 as int); assert(among(vx_s2@, vx_s2@.len() as int, vx_s2@[vx_i2 as int]@)); assert(!among(vx_s2@, vx_i2 as int, vx_s2@[vx_i2 as int]@)); }
//@ loop 2 post: proof { assert(package.parts@ =~= pruned(vx_p)); }
//@ ensures: final(package).parts@ == pruned(old(package).parts@), vx_ret + final(package).parts@.dom().len() == old(package).parts@.dom().len()
//@end
// ------------------------------------------------- removing parts
pub open spec fn TYPES() -> Seq<char> { S"[Content_Types].xml" }
#[verifier::external_body] pub fn vx_is_part(a: &str, n: &str) -> (r: bool) ensures r == (a@ == seq!['/'] + n@) { a.strip_prefix('/') == Some(n) }
// an element that says something about one of the parts: a relationship to it, or its content type
pub open spec fn about(t: TagV, base: Seq<char>, gone: Set<Seq<char>>) -> bool {
    if t.name == S"Relationship" { inward(t) && gone.contains(joined(base, val(t, S"Target"))) }
    else { t.name == S"Override" && has(t, S"PartName") && has_prefix(val(t, S"PartName"), seq!['/']) && gone.contains(val(t, S"PartName").skip(1)) }
}
#[verifier::external_body] pub fn vx_amid(v: &[String], n: &String) -> (r: bool) ensures r == among(v@, v@.len() as int, n@) { v.contains(n) }
pub open spec fn names(v: Seq<String>) -> Set<Seq<char>> { v.map_values(|s: String| s@).to_set() }
pub proof fn lemma_names(v: Seq<String>) ensures forall|n: Seq<char>| #[trigger] names(v).contains(n) <==> among(v, v.len() as int, n) {
    let w = v.map_values(|s: String| s@);
    assert forall|n: Seq<char>| #[trigger] names(v).contains(n) <==> among(v, v.len() as int, n) by {
        if names(v).contains(n) { assert(w.contains(n)); let i = choose|i: int| 0 <= i < w.len() && w[i] == n; assert(v[i]@ == n); }
        if among(v, v.len() as int, n) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == n; assert(w[i] == n); assert(w.contains(n)); }
    }
}
//@fn leads_to
//@ opt: streq
//@ sub: parts.contains(&target) =>> vx_amid(parts, &target)
//@ sub: name.strip_prefix('/') == Some(part) =>> vx_is_part(name, part)
//@ begin: proof { lemma_names(parts@); if has(tagv(*tag), S"PartName") { let n = val(tagv(*tag), S"PartName"); assert forall|m: Seq<char>| n == #[trigger] (seq!['/'] + m) <==> has_prefix(n, seq!['/']) && n.skip(1) == m by { if has_prefix(n, seq!['/']) && n.skip(1) == m { assert(n =~= seq!['/'] + m); } if n == seq!['/'] + m { assert(n.skip(1) =~= m); assert(n.take(1) =~= seq!['/']); } } } }
//@ loop 0 inv: vx_s0@ == parts@, !vx_r0 ==> forall|i: int| 0 <= i < vx_i0 ==> name@ != seq!['/'] + (#[trigger] parts@[i])@, vx_r0 ==> 0 <= vx_i0 < parts@.len() && name@ == seq!['/'] + parts@[vx_i0 as int]@
//@ ensures: vx_ret == about(tagv(*tag), base@, names(parts@))
//@end
//@fn without_spans
//@ opt: strslice
//@ requires: inside(xml@, spanv(spans@))
//@ begin: proof { lemma_onchar_ends(xml@); lemma_blen_ge(xml@); }
//@ loop 0 post: proof { lemma_onchar_ends(xml@); lemma_onchar(xml@, from as int, blen(xml@)); }
//@ loop 0 inv: vx_s0@ == spans@, inside(xml@, spanv(spans@)), onchar(xml@, from as int), from <= blen(xml@), (kept@, from as int) == cut_upto(xml@, spanv(spans@), vx_i0 as int)
//@ loop 0 begin: proof { assert(spanv(spans@)[vx_i0 as int] == (spans@[vx_i0 as int].start as int, spans@[vx_i0 as int].end as int)); if spans@[vx_i0 as int].start >= from { lemma_onchar(xml@, from as int, spans@[vx_i0 as int].start as int); lemma_onchar(xml@, spans@[vx_i0 as int].start as int, spans@[vx_i0 as int].end as int); } }
//@ ensures: vx_ret@ == cut(xml@, spanv(spans@))
//@end
pub open spec fn about_upto(v: Seq<TagV>, k: int, base: Seq<char>, gone: Set<Seq<char>>) -> Seq<(int, int)> decreases k { if k <= 0 { Seq::<(int, int)>::empty() } else if about(v[k - 1], base, gone) { about_upto(v, k - 1, base, gone).push(v[k - 1].span) } else { about_upto(v, k - 1, base, gone) } }
pub open spec fn notes_of(x: Seq<char>, f: Seq<char>, gone: Set<Seq<char>>) -> Seq<(int, int)> { about_upto(tags(x), tags(x).len() as int, dir_of(f), gone) }
pub open spec fn refers(n: Seq<char>) -> bool { n == TYPES() || is_rels(n) }
// part n once the parts gone are gone
pub open spec fn rid(n: Seq<char>, b: Seq<u8>, gone: Set<Seq<char>>) -> Seq<u8> { if refers(n) && is_text(b) && notes_of(txt(b), n, gone).len() > 0 { enc(cut(txt(b), notes_of(txt(b), n, gone))) } else { b } }
pub open spec fn stripped(p: Parts, gone: Set<Seq<char>>) -> Parts { Map::new(p.dom().filter(|n: Seq<char>| !gone.contains(n)), |n: Seq<char>| rid(n, p[n], gone)) }
pub proof fn lemma_about_inside(x: Seq<char>, k: int, base: Seq<char>, gone: Set<Seq<char>>) requires 0 <= k <= tags(x).len() ensures inside(x, about_upto(tags(x), k, base, gone)) decreases k {
    if k > 0 { lemma_about_inside(x, k - 1, base, gone); ax_placed(x); assert(placed(x, tags(x)[k - 1])); let v = about_upto(tags(x), k - 1, base, gone); let w = about_upto(tags(x), k, base, gone); assert forall|i: int| 0 <= i < w.len() implies onchar(x, (#[trigger] w[i]).0) && onchar(x, w[i].1) && w[i].0 <= w[i].1 by { if i < v.len() { assert(w[i] == v[i]); } } }
}
//@fn remove_parts
//@ opt: streq, noinline
//@ sub: |s| s.to_string() =>> |s| vx_own(s)
//@ sub: scan_tags(xml).unwrap_or_default() =>> vx_tags(xml)
//@ begin: let ghost vx_p = old(package).parts@; proof { lemma_names(removed@); }
//@ loop 0 inv: vx_s0@ == removed@, forall|n: Seq<char>| #[trigger] package.parts@.dom().contains(n) <==> vx_p.dom().contains(n) && !among(removed@, vx_i0 as int, n), forall|n: Seq<char>| #[trigger] package.parts@.dom().contains(n) ==> package.parts@[n] == vx_p[n]
//@ loop 0 begin: proof { lemma_among(removed@, vx_i0 as int); }
//@ loop 1 pre: let ghost vx_q = package.parts@;
//@ loop 1 inv: tyv::<String>(vx_r1), package.parts@ == vx_q, vx_r1@.len() == vx_i1, forall|i: int| 0 <= i < vx_i1 ==> (#[trigger] vx_r1@[i])@ == vx_s1@[i]@, forall|k: Seq<char>| #[trigger] vx_q.dom().contains(k) <==> exists|i: int| 0 <= i < vx_s1@.len() && (#[trigger] vx_s1@[i])@ == k, forall|i: int, j: int| 0 <= i < j < vx_s1@.len() ==> (#[trigger] vx_s1@[i])@ != (#[trigger] vx_s1@[j])@
//@ loop 1 post: proof { assert forall|k: Seq<char>| #[trigger] vx_q.dom().contains(k) <==> among(vx_r1@, vx_r1@.len() as int, k) by { if vx_q.dom().contains(k) { let i = choose|i: int| 0 <= i < vx_s1@.len() && (#[trigger] vx_s1@[i])@ == k; assert(vx_r1@[i]@ == k); } if among(vx_r1@, vx_r1@.len() as int, k) { let i = choose|i: int| 0 <= i < vx_r1@.len() && (#[trigger] vx_r1@[i])@ == k; assert(vx_s1@[i]@ == k); } } assert(distinct(vx_r1@)) by { assert forall|i: int, j: int| 0 <= i < j < vx_r1@.len() implies (#[trigger] vx_r1@[i])@ != (#[trigger] vx_r1@[j])@ by { assert(vx_s1@[i]@ != vx_s1@[j]@); } } }
//@ loop 2 pre: let ghost vx_q = package.parts@;
//@ loop 2 inv: distinct(vx_s2@), package.parts@.dom() == vx_q.dom(), forall|k: Seq<char>| #[trigger] vx_q.dom().contains(k) <==> among(vx_s2@, vx_s2@.len() as int, k), forall|n: Seq<char>| #[trigger] vx_q.dom().contains(n) ==> package.parts@[n] == (if among(vx_s2@, vx_i2 as int, n) { rid(n, vx_q[n], names(removed@)) } else { vx_q[n] })
//@ loop 2 begin: let ghost vx_n = vx_s2@[vx_i2 as int]@; proof { lemma_among(vx_s2@, vx_i2 as int); assert(among(vx_s2@, vx_s2@.len() as int, vx_n)); assert(!among(vx_s2@, vx_i2 as int, vx_n)); assert(vx_q.dom().contains(vx_n)); assert(package.parts@[vx_n] == vx_q[vx_n]); }
//@ loop 2 end: proof { assert(package.parts@.dom() =~= vx_q.dom()); }
//@ loop 2 post: proof { assert(package.parts@ =~= stripped(vx_p, names(removed@))); }
//@ loop 3 inv: tyv::<Range<usize>>(spans), tagvs(vx_s3@) == tags(xml@), base@ == dir_of(path@), spanv(spans@) == about_upto(tags(xml@), vx_i3 as int, base@, names(removed@))
//@ loop 3 begin: let ghost vx_v = spans@; proof { assert(tagvs(vx_s3@)[vx_i3 as int] == tagv(vx_s3@[vx_i3 as int])); }
//@ loop 3 end: proof { if spans@.len() > vx_v.len() { assert(spanv(spans@) =~= spanv(vx_v).push(tags(xml@)[vx_i3 - 1].span)); } }
//@ loop 3 post: proof { lemma_about_inside(xml@, tags(xml@).len() as int, base@, names(removed@)); }
//@ ensures: final(package).parts@ == stripped(old(package).parts@, names(removed@))
//@end
pub open spec fn props() -> Set<Seq<char>> { set![S"docProps/core.xml", S"docProps/app.xml", S"docProps/custom.xml", S"docProps/thumbnail.jpeg"] }
pub open spec fn is_prop(n: Seq<char>) -> bool { n == S"docProps/core.xml" || n == S"docProps/app.xml" || n == S"docProps/custom.xml" || n == S"docProps/thumbnail.jpeg" }
//@fn remove_document_properties
//@ opt: noinline, forarr
//@ sub: |s| s.to_string() =>> |s| vx_own(s)
//@ loop 0 inv: tyv::<String>(vx_r0), *package == *old(package), vx_r0@.len() == vx_i0, forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] vx_r0@[i])@ == vx_s0@[i]@
//@ loop 0 post: proof { let v = vx_r0@; assert forall|n: Seq<char>| #[trigger] among(v, v.len() as int, n) <==> is_prop(n) by { let _ = v[0]@; let _ = v[1]@; let _ = v[2]@; let _ = v[3]@; if is_prop(n) { assert(v[0]@ == n || v[1]@ == n || v[2]@ == n || v[3]@ == n); } } lemma_names(v); assert(names(v) =~= props()); }
//@ ensures: final(package).parts@ == stripped(old(package).parts@, props())
//@end
pub open spec fn notes(p: Parts) -> Set<Seq<char>> { p.dom().filter(|n: Seq<char>| is_note(n)) }
pub open spec fn is_note(n: Seq<char>) -> bool { has_prefix(n, S"ppt/notesSlides/") }
//@fn remove_notes_slides
//@ opt: noinline
//@ sub: |s| s.to_string() =>> |s| vx_own(s)
//@ begin: let ghost vx_p = old(package).parts@;
//@ loop 0 inv: tyv::<String>(vx_r0), *package == *old(package), forall|k: Seq<char>| #[trigger] vx_p.dom().contains(k) <==> exists|i: int| 0 <= i < vx_s0@.len() && (#[trigger] vx_s0@[i])@ == k, forall|n: Seq<char>| #[trigger] among(vx_r0@, vx_r0@.len() as int, n) <==> amongr(vx_s0@, vx_i0 as int, n) && is_note(n)
//@ loop 0 begin: let ghost vx_v = vx_r0@; proof { lemma_amongr(vx_s0@, vx_i0 as int); }
//@ loop 0 end: proof { if vx_r0@.len() > vx_v.len() { assert(vx_r0@.drop_last() =~= vx_v); lemma_pushed(vx_v, vx_r0@); } }
//@ loop 0 post: assert forall|n: Seq<char>| #[trigger] among(vx_r0@, vx_r0@.len() as int, n) <==> vx_p.dom().contains(n) && is_note(n) by { assert(amongr(vx_s0@, vx_i0 as int, n) <==> vx_p.dom().contains(n)); } proof { lemma_names(vx_r0@); assert(names(vx_r0@) =~= notes(vx_p)); }
//@ ensures: final(package).parts@ == stripped(old(package).parts@, notes(old(package).parts@))
//@end
// ------------------------------------------------- whitespace that lays out elements
pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\t' || c == '\r' || c == '\n' }
pub open spec fn all_blank(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> blank(#[trigger] s[i]) }
//@fn is_xml_space
//@ ensures: vx_ret == blank(c)
//@end
//@fn is_blank
//@ sub: is_xml_space =>> |c| is_xml_space(c)
//@ loop 0 inv: vx_s0@ == text@, vx_r0 ==> forall|i: int| 0 <= i < vx_i0 ==> blank(#[trigger] text@[i]), !vx_r0 ==> 0 <= vx_i0 < text@.len() && !blank(text@[vx_i0 as int])
//@ ensures: vx_ret == all_blank(text@)
//@end
// elements come in the order in which they start, and lie in one another or apart
pub open spec fn nested(v: Seq<TagV>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).span.0 < (#[trigger] v[j]).span.0 && (v[j].span.0 >= v[i].inner.1 || v[j].span.1 <= v[i].inner.1) }
pub axiom fn ax_nested(x: Seq<char>) ensures nested(tags(x)), wf(x) ==> tags(x).len() > 0;
// what lies around and between the children of element p, v the elements after its start: where the last child before element k ends, and the gaps so far
pub open spec fn gaps_upto(p: TagV, v: Seq<TagV>, k: int) -> (int, Seq<(int, int)>) decreases k {
    if k <= 0 { (p.inner.0, Seq::<(int, int)>::empty()) } else {
        let (f, g) = gaps_upto(p, v, k - 1);
        if v[k - 1].span.0 >= f && v[k - 1].span.0 < p.inner.1 { (v[k - 1].span.1, g.push((f, v[k - 1].span.0))) } else { (f, g) }
    }
}
pub open spec fn gaps(p: TagV, v: Seq<TagV>) -> Seq<(int, int)> { let (f, g) = gaps_upto(p, v, v.len() as int); if g.len() > 0 { g.push((f, p.inner.1)) } else { g } }
// past the end of an element there are no children of it
pub proof fn lemma_gaps_end(p: TagV, v: Seq<TagV>, k: int, m: int) requires nested(v), 0 <= k <= m <= v.len(), k < v.len() ==> v[k].span.0 >= p.inner.1 ensures gaps_upto(p, v, m) == gaps_upto(p, v, k) decreases m { if m > k { lemma_gaps_end(p, v, k, m - 1); if m - 1 > k { assert(v[k].span.0 < v[m - 1].span.0); } } }
//@fn child_gaps
//@ requires: nested(tagvs(following@))
//@ begin: let ghost vx_p = tagv(*parent); let ghost vx_v = tagvs(following@);
//@ loop 0 inv: tyv::<Range<usize>>(gaps), vx_s0@ == following@, vx_v == tagvs(following@), vx_p == tagv(*parent), nested(vx_v), (from as int, spanv(gaps@)) == gaps_upto(vx_p, vx_v, vx_i0 as int)
//@ loop 0 ens: (from as int, spanv(gaps@)) == gaps_upto(vx_p, vx_v, following@.len() as int)
//@ loop 0 begin: let ghost vx_g = gaps@; proof { assert(vx_v[vx_i0 as int] == tagv(following@[vx_i0 as int])); if vx_v[vx_i0 as int].span.0 >= vx_p.inner.1 { lemma_gaps_end(vx_p, vx_v, vx_i0 as int, following@.len() as int); } }
//@ loop 0 end: proof { if gaps@.len() > vx_g.len() { assert(spanv(gaps@) =~= spanv(vx_g).push((vx_g_from(vx_p, vx_v, vx_i0 - 1), vx_v[vx_i0 - 1].span.0))); } else { assert(gaps@ == vx_g); } }
//@ end: proof { assert(spanv(vx_r@) =~= self::gaps(vx_p, vx_v)); }
//@ ensures: spanv(vx_ret@) == gaps(tagv(*parent), tagvs(following@))
//@end
pub open spec fn vx_g_from(p: TagV, v: Seq<TagV>, k: int) -> int { gaps_upto(p, v, k).0 }
// what is set apart by xml:space="preserve" among the first k elements ends here
pub open spec fn preserves(t: TagV) -> bool { has(t, S"xml:space") && val(t, S"xml:space") == S"preserve" }
pub open spec fn preserved(v: Seq<TagV>, k: int) -> int decreases k { if k <= 0 { 0 } else if preserves(v[k - 1]) && v[k - 1].span.1 > preserved(v, k - 1) { v[k - 1].span.1 } else { preserved(v, k - 1) } }
// the text between two places
pub open spec fn between(x: Seq<char>, g: (int, int)) -> Seq<char> { byte_sub(x, g.0, g.1) }
pub open spec fn blanks(x: Seq<char>, g: Seq<(int, int)>) -> bool { forall|i: int| 0 <= i < g.len() ==> all_blank(between(x, #[trigger] g[i])) }
pub open spec fn tail(s: Seq<char>) -> int decreases s.len() { if s.len() > 0 && blank(s.last()) { tail(s.drop_last()) } else { s.len() as int } }
#[verifier::external_body] pub fn vx_trim_end(s: &str) -> (r: &str) ensures r@ == s@.take(tail(s@)) { s.trim_end_matches([' ', '\t', '\r', '\n']) }
// before and after the root element
pub open spec fn around(x: Seq<char>) -> Seq<(int, int)> {
    let root = tags(x)[0]; let head = byte_sub(x, 0, root.span.0);
    let g = seq![(blen(head.take(tail(head))), root.span.0)];
    if all_blank(byte_sub(x, root.span.1, blen(x))) { g.push((root.span.1, blen(x))) } else { g }
}
// an element whose children have nothing but blanks around them, and which no xml:space="preserve" sets apart, gives its gaps
pub open spec fn loose(x: Seq<char>, v: Seq<TagV>, i: int) -> bool { v[i].span.0 >= preserved(v, i + 1) && blanks(x, gaps(v[i], v.skip(i + 1))) }
pub open spec fn layout_upto(x: Seq<char>, k: int) -> Seq<(int, int)> decreases k { if k <= 0 { around(x) } else if loose(x, tags(x), k - 1) { layout_upto(x, k - 1) + gaps(tags(x)[k - 1], tags(x).skip(k)) } else { layout_upto(x, k - 1) } }
pub open spec fn layout(x: Seq<char>) -> Seq<(int, int)> { layout_upto(x, tags(x).len() as int) }
// a sort of the code by a closure: any rearrangement will do here
pub uninterp spec fn arranged(v: Seq<(int, int)>) -> Seq<(int, int)>;
pub open spec fn amidst(v: Seq<(int, int)>, g: (int, int)) -> bool { exists|i: int| 0 <= i < v.len() && #[trigger] v[i] == g }
pub axiom fn ax_arranged(v: Seq<(int, int)>) ensures arranged(v).len() == v.len(), forall|g: (int, int)| #[trigger] amidst(arranged(v), g) <==> amidst(v, g);
#[verifier::external_body] pub fn vx_arrange(v: &mut Vec<Range<usize>>) ensures spanv(final(v)@) == arranged(spanv(old(v)@)) { v.sort_by_key(|gap| gap.start) }
#[verifier::external_body] pub fn vx_add_all(v: &mut Vec<Range<usize>>, w: Vec<Range<usize>>) ensures final(v)@ == old(v)@ + w@ { v.extend(w) }
#[verifier::external_body] pub fn vx_first(v: &Vec<XmlTag>) -> (r: Option<&XmlTag>) ensures r is Some <==> v@.len() > 0, r is Some ==> *r->Some_0 == v@[0] { v.first() }
#[verifier::external_body] pub fn vx_after(v: &Vec<XmlTag>, n: usize) -> (r: &[XmlTag]) requires n <= v@.len() ensures r@ == v@.skip(n as int) { &v[n..] }
pub open spec fn minimal(x: Seq<char>) -> Seq<char> { if wf(x) { cut(x, arranged(layout(x))) } else { x } }
// ---- every stretch is one of the text, and blank
pub open spec fn sound(x: Seq<char>, v: Seq<(int, int)>) -> bool { inside(x, v) && blanks(x, v) }
pub proof fn lemma_gaps_inside(x: Seq<char>, i: int, k: int) requires 0 <= i < tags(x).len(), 0 <= k <= tags(x).skip(i + 1).len()
    ensures inside(x, gaps_upto(tags(x)[i], tags(x).skip(i + 1), k).1), onchar(x, gaps_upto(tags(x)[i], tags(x).skip(i + 1), k).0), gaps_upto(tags(x)[i], tags(x).skip(i + 1), k).0 <= tags(x)[i].inner.1 decreases k
{
    ax_placed(x); ax_nested(x); let v = tags(x).skip(i + 1); let p = tags(x)[i]; assert(placed(x, p));
    if k > 0 {
        lemma_gaps_inside(x, i, k - 1);
        assert(v[k - 1] == tags(x)[i + k]); assert(placed(x, tags(x)[i + k]));
        let (f, g) = gaps_upto(p, v, k - 1); let (f2, h) = gaps_upto(p, v, k);
        assert forall|a: int| 0 <= a < h.len() implies onchar(x, (#[trigger] h[a]).0) && onchar(x, h[a].1) && h[a].0 <= h[a].1 by { if a < g.len() { assert(h[a] == g[a]); } }
    }
}
pub proof fn lemma_gaps_in(x: Seq<char>, i: int) requires 0 <= i < tags(x).len() ensures inside(x, gaps(tags(x)[i], tags(x).skip(i + 1))) {
    let v = tags(x).skip(i + 1); let p = tags(x)[i];
    lemma_gaps_inside(x, i, v.len() as int); ax_placed(x); assert(placed(x, p));
    let (f, g) = gaps_upto(p, v, v.len() as int); let h = gaps(p, v);
    assert forall|a: int| 0 <= a < h.len() implies onchar(x, (#[trigger] h[a]).0) && onchar(x, h[a].1) && h[a].0 <= h[a].1 by { if a < g.len() { assert(h[a] == g[a]); } }
}
pub proof fn lemma_tail(s: Seq<char>) ensures 0 <= tail(s) <= s.len(), all_blank(s.skip(tail(s))) decreases s.len() {
    if s.len() > 0 && blank(s.last()) { lemma_tail(s.drop_last()); let t = tail(s); assert forall|i: int| 0 <= i < s.skip(t).len() implies blank(#[trigger] s.skip(t)[i]) by { if i < s.skip(t).len() - 1 { assert(s.drop_last().skip(t)[i] == s.skip(t)[i]); } } }
}
pub proof fn lemma_around(x: Seq<char>) requires tags(x).len() > 0 ensures sound(x, around(x)) {
    ax_placed(x); let root = tags(x)[0]; assert(placed(x, root)); lemma_onchar_ends(x); lemma_at_end(x);
    let e = choose|e: int| at_byte(x, e, root.span.0);
    if e > 0 { lemma_blen_mono(x, 0, e); }
    lemma_byte_sub(x, 0, e, 0, root.span.0);
    let head = byte_sub(x, 0, root.span.0); assert(head =~= x.take(e));
    lemma_tail(head); let t = tail(head); assert(head.take(t) =~= x.take(t)); assert(at_byte(x, t, blen(head.take(t))));
    if t < e { lemma_blen_mono(x, t, e); }
    lemma_byte_sub(x, t, e, blen(head.take(t)), root.span.0);
    assert(x.subrange(t, e) =~= head.skip(t));
    let b = choose|b: int| at_byte(x, b, root.span.1); lemma_blen_le(x, b);
}
pub proof fn lemma_layout(x: Seq<char>, k: int) requires 0 <= k <= tags(x).len(), tags(x).len() > 0 ensures sound(x, layout_upto(x, k)) decreases k {
    if k <= 0 { lemma_around(x); } else {
        lemma_layout(x, k - 1); lemma_gaps_in(x, k - 1);
        let a = layout_upto(x, k - 1); let b = gaps(tags(x)[k - 1], tags(x).skip(k)); let c = layout_upto(x, k);
        if loose(x, tags(x), k - 1) {
            assert forall|i: int| 0 <= i < c.len() implies onchar(x, (#[trigger] c[i]).0) && onchar(x, c[i].1) && c[i].0 <= c[i].1 && all_blank(between(x, c[i])) by { if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); } }
        }
    }
}
pub proof fn lemma_arranged(x: Seq<char>) requires tags(x).len() > 0 ensures sound(x, arranged(layout(x))) {
    lemma_layout(x, tags(x).len() as int); let v = layout(x); let w = arranged(v); ax_arranged(v);
    assert forall|i: int| 0 <= i < w.len() implies onchar(x, (#[trigger] w[i]).0) && onchar(x, w[i].1) && w[i].0 <= w[i].1 && all_blank(between(x, w[i])) by { assert(amidst(w, w[i])); assert(amidst(v, w[i])); let j = choose|j: int| 0 <= j < v.len() && #[trigger] v[j] == w[i]; assert(inside(x, v)); let _ = v[j]; }
}
//@fn minimize_xml
//@ opt: strslice
//@ sub: prolog.len() =>> prolog.vx_len()
//@ sub: xml.len() =>> xml.vx_len()
//@ sub: tags.first() =>> vx_first(&tags)
//@ sub: xml[..root.span.start].trim_end_matches(is_xml_space) =>> vx_trim_end(&xml[..root.span.start])
//@ sub: tag.attr("xml:space") == Some("preserve") =>> vx_is(tag.attr("xml:space"), "preserve")
//@ sub: &tags[index + 1..] =>> vx_after(&tags, index + 1)
//@ sub: layout.extend(gaps) =>> vx_add_all(&mut layout, gaps)
//@ sub: layout.sort_by_key(|gap| gap.start) =>> vx_arrange(&mut layout)
//@ begin: proof { ax_placed(xml@); ax_nested(xml@); lemma_onchar_ends(xml@); lemma_blen_ge(xml@); if self::tags(xml@).len() > 0 { let t = self::tags(xml@)[0]; assert(placed(xml@, t)); lemma_onchar_zero(xml@, t.span.0); lemma_onchar(xml@, 0, t.span.0); lemma_onchar_zero(xml@, t.span.1); lemma_onchar(xml@, t.span.1, blen(xml@)); } }
//@ loop 0 pre: proof { assert(tagvs(tags@)[0] == tagv(tags@[0])); assert(spanv(layout@) =~= around(xml@)); }
//@ loop 0 inv: wf(xml@), vx_s0@ == tags@, tagvs(tags@) == self::tags(xml@), nested(self::tags(xml@)), preserved as int == self::preserved(self::tags(xml@), vx_i0 as int), spanv(layout@) == layout_upto(xml@, vx_i0 as int)
//@ loop 0 begin: let ghost vx_l = layout@; proof { assert(tagvs(tags@)[vx_i0 as int] == tagv(tags@[vx_i0 as int])); lemma_gaps_in(xml@, vx_i0 as int); assert(tagvs(tags@.skip(vx_i0 + 1)) =~= self::tags(xml@).skip(vx_i0 + 1)); assert(nested(self::tags(xml@).skip(vx_i0 + 1))); }
//@ loop 0 end: proof { assert(self::tags(xml@).skip(vx_i0 - 1 + 1) =~= self::tags(xml@).skip(vx_i0 as int)); if loose(xml@, self::tags(xml@), vx_i0 - 1) { assert(spanv(layout@) =~= layout_upto(xml@, vx_i0 as int)); } else { assert(layout@ == vx_l); } }
//@ loop 0 post: proof { lemma_arranged(xml@); }
//@ loop 1 inv: vx_s1@ == gaps@, inside(xml@, spanv(gaps@)), vx_r1 ==> forall|i: int| 0 <= i < vx_i1 ==> all_blank(between(xml@, #[trigger] spanv(gaps@)[i])), !vx_r1 ==> 0 <= vx_i1 < gaps@.len() && !all_blank(between(xml@, spanv(gaps@)[vx_i1 as int]))
//@ loop 1 begin: proof { let g = spanv(gaps@)[vx_i1 as int]; assert(g == (gaps@[vx_i1 as int].start as int, gaps@[vx_i1 as int].end as int)); lemma_onchar(xml@, g.0, g.1); }
//@ ensures: vx_ret@ == minimal(xml@)
//@end
pub proof fn lemma_onchar_zero(x: Seq<char>, b: int) requires onchar(x, b) ensures 0 <= b <= blen(x) { let i = choose|i: int| at_byte(x, i, b); lemma_blen_le(x, i); lemma_blen_ge(x.take(i)); }
// ------------------------------------------------- no character of a text is lost but blanks
pub open spec fn dense(s: Seq<char>) -> Seq<char> { s.filter(|c: char| !blank(c)) }
pub proof fn lemma_dense_add(a: Seq<char>, b: Seq<char>) ensures dense(a + b) == dense(a) + dense(b) { Seq::filter_distributes_over_add(a, b, |c: char| !blank(c)); }
pub proof fn lemma_dense_blank(a: Seq<char>) requires all_blank(a) ensures dense(a) == Seq::<char>::empty() decreases a.len() { reveal(Seq::filter); if a.len() > 0 { assert forall|i: int| 0 <= i < a.drop_last().len() implies blank(#[trigger] a.drop_last()[i]) by { assert(a.drop_last()[i] == a[i]); } lemma_dense_blank(a.drop_last()); assert(blank(a.last())); } }
pub proof fn lemma_split(x: Seq<char>, a: int, b: int, c: int) requires onchar(x, a), onchar(x, b), onchar(x, c), a <= b <= c ensures byte_sub(x, a, c) == byte_sub(x, a, b) + byte_sub(x, b, c) {
    let i = choose|i: int| at_byte(x, i, a); let j = choose|j: int| at_byte(x, j, b); let k = choose|k: int| at_byte(x, k, c);
    lemma_byte_sub(x, i, j, a, b); lemma_byte_sub(x, j, k, b, c); lemma_byte_sub(x, i, k, a, c);
    assert(x.subrange(i, k) =~= x.subrange(i, j) + x.subrange(j, k));
}
pub proof fn lemma_cut_dense(x: Seq<char>, v: Seq<(int, int)>, k: int) requires sound(x, v), 0 <= k <= v.len()
    ensures onchar(x, cut_upto(x, v, k).1), dense(cut_upto(x, v, k).0) == dense(byte_sub(x, 0, cut_upto(x, v, k).1)) decreases k
{
    lemma_onchar_ends(x);
    if k > 0 {
        lemma_cut_dense(x, v, k - 1);
        let (t, f) = cut_upto(x, v, k - 1); let g = v[k - 1];
        lemma_onchar_zero(x, f);
        if g.0 >= f {
            lemma_split(x, 0, f, g.0); lemma_split(x, 0, g.0, g.1);
            lemma_dense_add(t, byte_sub(x, f, g.0)); lemma_dense_add(byte_sub(x, 0, f), byte_sub(x, f, g.0)); lemma_dense_add(byte_sub(x, 0, g.0), byte_sub(x, g.0, g.1));
            lemma_dense_blank(between(x, g));
        }
    } else { lemma_at_end(x); lemma_byte_sub(x, 0, 0, 0, 0); assert(x.subrange(0, 0) =~= Seq::<char>::empty()); }
}
pub proof fn lemma_nothing_lost(x: Seq<char>) ensures dense(minimal(x)) == dense(x) {
    if wf(x) {
        ax_nested(x); lemma_arranged(x); let v = arranged(layout(x)); lemma_cut_dense(x, v, v.len() as int);
        let (t, f) = cut_upto(x, v, v.len() as int);
        lemma_onchar_ends(x); lemma_onchar_zero(x, f); lemma_split(x, 0, f, blen(x)); lemma_dense_add(t, byte_sub(x, f, blen(x))); lemma_dense_add(byte_sub(x, 0, f), byte_sub(x, f, blen(x)));
        lemma_at_end(x); lemma_byte_sub(x, 0, x.len() as int, 0, blen(x)); assert(x.subrange(0, x.len() as int) =~= x);
    }
}
// ------------------------------------------------- all parts, all options
pub open spec fn xmlish(n: Seq<char>) -> bool { has_suffix(n, S".xml") || has_suffix(n, S".rels") }
pub open spec fn tidy(n: Seq<char>, b: Seq<u8>) -> Seq<u8> { if xmlish(n) && is_text(b) { enc(minimal(txt(b))) } else { b } }
pub open spec fn tidied(p: Parts) -> Parts { Map::new(p.dom(), |n: Seq<char>| tidy(n, p[n])) }
//@fn optimize_xml_content
//@ opt: noinline
//@ sub: |s| s.to_string() =>> |s| vx_own(s)
//@ begin: let ghost vx_p = old(package).parts@;
//@ loop 0 inv: tyv::<String>(vx_r0), *package == *old(package), distinct(vx_r0@), forall|k: Seq<char>| #[trigger] vx_p.dom().contains(k) <==> exists|i: int| 0 <= i < vx_s0@.len() && (#[trigger] vx_s0@[i])@ == k, forall|i: int, j: int| 0 <= i < j < vx_s0@.len() ==> (#[trigger] vx_s0@[i])@ != (#[trigger] vx_s0@[j])@, forall|n: Seq<char>| #[trigger] among(vx_r0@, vx_r0@.len() as int, n) <==> amongr(vx_s0@, vx_i0 as int, n) && xmlish(n)
//@ loop 0 begin: let ghost vx_v = vx_r0@; proof { lemma_amongr(vx_s0@, vx_i0 as int); }
//@ loop 0 end: proof { if vx_r0@.len() > vx_v.len() { assert(vx_r0@.drop_last() =~= vx_v); lemma_pushed(vx_v, vx_r0@); assert forall|i: int| 0 <= i < vx_v.len() implies (#[trigger] vx_r0@[i])@ != vx_r0@.last()@ by { assert(among(vx_v, vx_v.len() as int, vx_v[i]@)); let j = choose|j: int| 0 <= j < vx_i0 - 1 && (#[trigger] vx_s0@[j])@ == vx_v[i]@; assert(vx_s0@[j]@ != vx_s0@[vx_i0 - 1]@); } } }
//@ loop 0 post: assert forall|n: Seq<char>| #[trigger] among(vx_r0@, vx_r0@.len() as int, n) <==> vx_p.dom().contains(n) && xmlish(n) by { assert(amongr(vx_s0@, vx_i0 as int, n) <==> vx_p.dom().contains(n)); }
//@ loop 1 inv: distinct(vx_s1@), package.parts@.dom() == vx_p.dom(), forall|n: Seq<char>| #[trigger] among(vx_s1@, vx_s1@.len() as int, n) <==> vx_p.dom().contains(n) && xmlish(n), forall|n: Seq<char>| #[trigger] vx_p.dom().contains(n) ==> package.parts@[n] == (if among(vx_s1@, vx_i1 as int, n) { tidy(n, vx_p[n]) } else { vx_p[n] })
//@ loop 1 begin: let ghost vx_n = vx_s1@[vx_i1 as int]@; proof { lemma_among(vx_s1@, vx_i1 as int); assert(among(vx_s1@, vx_s1@.len() as int, vx_n)); assert(!among(vx_s1@, vx_i1 as int, vx_n)); assert(vx_p.dom().contains(vx_n)); assert(package.parts@[vx_n] == vx_p[vx_n]); }
//@ loop 1 end: proof { assert(package.parts@.dom() =~= vx_p.dom()); }
//@ loop 1 post: proof { assert(package.parts@ =~= tidied(vx_p)); }
//@ ensures: final(package).parts@ == tidied(old(package).parts@)
//@end
pub open spec fn step(c: bool, a: Parts, b: Parts) -> Parts { if c { b } else { a } }
pub open spec fn compressed(p: Parts, o: CompressionOptions) -> Parts {
    let a = step(o.remove_unused_media, p, pruned(p));
    let b = step(o.remove_properties, a, stripped(a, props()));
    let c = step(o.remove_notes, b, stripped(b, notes(b)));
    step(o.optimize_xml, c, tidied(c))
}
//@fn compress_package
//@ ensures: final(package).parts@ == compressed(old(package).parts@, *options), !options.remove_unused_media ==> vx_ret == 0, options.remove_unused_media ==> vx_ret + pruned(old(package).parts@).dom().len() == old(package).parts@.dom().len()
//@end
// ------------------------------------------------- archives (C08: what is saved opens to the same parts)
pub uninterp spec fn archive(b: Seq<u8>) -> Parts;
#[verifier::external_body] pub fn vx_open(b: &[u8]) -> (r: Result<Package>) ensures r is Ok ==> r->Ok_0.parts@ == archive(b@) { unimplemented!() }
#[verifier::external_body] pub fn vx_save(p: &Package) -> (r: Result<Vec<u8>>) ensures r is Ok ==> archive(r->Ok_0@) == p.parts@ { unimplemented!() }
//@fn compress_pptx_in_memory
//@ sub: Package::open_reader(std::io::Cursor::new(data)) =>> vx_open(data)
//@ sub: let mut output = std::io::Cursor::new(Vec::new()); package.save_writer(&mut output)?; let output_data = output.into_inner(); =>> let output_data = vx_save(&package)?;
//@ ensures: vx_ret is Ok ==> archive(vx_ret->Ok_0.0@) == compressed(archive(data@), *options), vx_ret is Ok ==> vx_ret->Ok_0.1.original_size == data@.len() && vx_ret->Ok_0.1.compressed_size == vx_ret->Ok_0.0@.len() && vx_ret->Ok_0.1.target_achieved == (options.target_size == 0 || vx_ret->Ok_0.0@.len() <= options.target_size) && (options.remove_unused_media ==> vx_ret->Ok_0.1.unused_media_removed + pruned(archive(data@)).dom().len() == archive(data@).dom().len())
//@end
// files: a stored package is what was saved there; saving is only allowed of the compressed one
#[verifier::external_body] pub struct VxPath { p: u8 }
pub uninterp spec fn stored(p: VxPath) -> Parts;
pub uninterp spec fn sized(p: VxPath, n: usize) -> bool;
#[verifier::external_body] pub fn vx_open_file(p: &VxPath) -> (r: Result<Package>) ensures r is Ok ==> r->Ok_0.parts@ == stored(*p) && fits(r->Ok_0.parts@) { unimplemented!() }
#[verifier::external_body] pub fn vx_size(p: &VxPath) -> (r: Result<usize>) ensures r is Ok ==> sized(*p, r->Ok_0) { unimplemented!() }
#[verifier::external_body] pub fn vx_save_file(k: &Package, from: &VxPath, p: &VxPath, o: &CompressionOptions) -> (r: Result<()>) requires k.parts@ == compressed(stored(*from), *o) { unimplemented!() }
//@fn compress_pptx
//@ header: (input_path: &VxPath, output_path: &VxPath, options: &CompressionOptions) -> (vx_ret: Result<CompressionResult>)
//@ sub: Package::open(input_path.as_ref()) =>> vx_open_file(input_path)
//@ sub: std::fs::metadata(input_path.as_ref())?.len() as usize =>> vx_size(input_path)?
//@ sub: std::fs::metadata(output_path.as_ref())?.len() as usize =>> vx_size(output_path)?
//@ sub: package.save(output_path.as_ref()) =>> vx_save_file(&package, input_path, output_path, options)
//@ ensures: vx_ret is Ok ==> sized(*input_path, vx_ret->Ok_0.original_size) && sized(*output_path, vx_ret->Ok_0.compressed_size) && vx_ret->Ok_0.target_achieved == (options.target_size == 0 || vx_ret->Ok_0.compressed_size <= options.target_size) && (options.remove_unused_media ==> vx_ret->Ok_0.unused_media_removed + pruned(stored(*input_path)).dom().len() == stored(*input_path).dom().len())
//@end
// ------------------------------------------------- sizes and counts
pub open spec fn each_part(v: Seq<&str>, p: Parts) -> bool { (forall|k: Seq<char>| #[trigger] p.dom().contains(k) <==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == k) && forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i])@ != (#[trigger] v[j])@ }
pub open spec fn sum_if(v: Seq<&str>, p: Parts, k: int, c: spec_fn(Seq<char>) -> bool) -> int decreases k { if k <= 0 { 0 } else { sum_if(v, p, k - 1, c) + (if c(v[k - 1]@) { p[v[k - 1]@].len() as int } else { 0 }) } }
pub open spec fn num_if(v: Seq<&str>, k: int, c: spec_fn(Seq<char>) -> bool) -> int decreases k { if k <= 0 { 0 } else { num_if(v, k - 1, c) + (if c(v[k - 1]@) { 1int } else { 0 }) } }
// a package in memory: its parts together have a size
pub open spec fn fits(p: Parts) -> bool { forall|v: Seq<&str>, k: int| each_part(v, p) && 0 <= k <= v.len() ==> #[trigger] total(v, p, k) <= usize::MAX }
pub open spec fn total(v: Seq<&str>, p: Parts, k: int) -> int { sum_if(v, p, k, all()) }
pub open spec fn in_media(n: Seq<char>) -> bool { has_prefix(n, S"ppt/media/") }
pub open spec fn is_image(n: Seq<char>) -> bool { in_media(n) && (has_suffix(n, S".png") || has_suffix(n, S".jpg") || has_suffix(n, S".jpeg")) }
pub open spec fn is_clip(n: Seq<char>) -> bool { in_media(n) && !is_image(n) }
pub open spec fn is_xml(n: Seq<char>) -> bool { !in_media(n) && xmlish(n) }
pub open spec fn is_other(n: Seq<char>) -> bool { !is_image(n) && !is_xml(n) }
pub open spec fn is_slide(n: Seq<char>) -> bool { is_xml(n) && has_prefix(n, S"ppt/slides/slide") && has_suffix(n, S".xml") }
pub open spec fn all() -> spec_fn(Seq<char>) -> bool { |n: Seq<char>| true }
pub open spec fn f_image() -> spec_fn(Seq<char>) -> bool { |n: Seq<char>| is_image(n) }
pub open spec fn f_clip() -> spec_fn(Seq<char>) -> bool { |n: Seq<char>| is_clip(n) }
pub open spec fn f_xml() -> spec_fn(Seq<char>) -> bool { |n: Seq<char>| is_xml(n) }
pub open spec fn f_other() -> spec_fn(Seq<char>) -> bool { |n: Seq<char>| is_other(n) }
pub open spec fn f_slide() -> spec_fn(Seq<char>) -> bool { |n: Seq<char>| is_slide(n) }
pub proof fn lemma_sums(v: Seq<&str>, p: Parts, k: int) requires 0 <= k <= v.len() ensures sum_if(v, p, k, f_image()) + sum_if(v, p, k, f_xml()) + sum_if(v, p, k, f_other()) == sum_if(v, p, k, all()), sum_if(v, p, k, f_image()) >= 0, sum_if(v, p, k, f_xml()) >= 0, sum_if(v, p, k, f_other()) >= 0 decreases k { if k > 0 { lemma_sums(v, p, k - 1); } }
pub open spec fn analysed(a: PptxAnalysis, v: Seq<&str>, p: Parts) -> bool {
    &&& a.images_size == sum_if(v, p, v.len() as int, f_image()) && a.xml_size == sum_if(v, p, v.len() as int, f_xml()) && a.other_size == sum_if(v, p, v.len() as int, f_other())
    &&& a.image_count == num_if(v, v.len() as int, f_image()) && a.media_count == num_if(v, v.len() as int, f_clip()) && a.slide_count == num_if(v, v.len() as int, f_slide())
    &&& a.images_size + a.xml_size + a.other_size == sum_if(v, p, v.len() as int, all())
}
//@fn analyze_pptx
//@ header: (path: &VxPath) -> (vx_ret: Result<PptxAnalysis>)
//@ sub: Package::open(path.as_ref()) =>> vx_open_file(path)
//@ sub: std::fs::metadata(path.as_ref())?.len() as usize =>> vx_size(path)?
//@ loop 0 inv: each_part(vx_s0@, package.parts@), package.parts@ == stored(*path), fits(package.parts@), images_size as int == sum_if(vx_s0@, package.parts@, vx_i0 as int, f_image()), xml_size as int == sum_if(vx_s0@, package.parts@, vx_i0 as int, f_xml()), other_size as int == sum_if(vx_s0@, package.parts@, vx_i0 as int, f_other()), image_count as int == num_if(vx_s0@, vx_i0 as int, f_image()), media_count as int == num_if(vx_s0@, vx_i0 as int, f_clip()), slide_count as int == num_if(vx_s0@, vx_i0 as int, f_slide()), image_count <= vx_i0, media_count <= vx_i0, slide_count <= vx_i0
//@ loop 0 begin: let ghost vx_n = vx_s0@[vx_i0 as int]@; proof { assert(package.parts@.dom().contains(vx_n)); assert(sum_if(vx_s0@, package.parts@, vx_i0 + 1, all()) <= usize::MAX) by { assert(total(vx_s0@, package.parts@, vx_i0 + 1) <= usize::MAX); } lemma_sums(vx_s0@, package.parts@, vx_i0 as int); lemma_sums(vx_s0@, package.parts@, vx_i0 + 1); }
//@ loop 0 post: proof { lemma_sums(vx_s0@, package.parts@, vx_s0@.len() as int); assert(vx_listed(vx_s0@)); }
//@ ensures: vx_ret is Ok ==> sized(*path, vx_ret->Ok_0.total_size), vx_ret is Ok ==> exists|v: Seq<&str>| each_part(v, stored(*path)) && #[trigger] vx_listed(v) && analysed(vx_ret->Ok_0, v, stored(*path))
//@end
pub open spec fn vx_listed(v: Seq<&str>) -> bool { true }
//%extras
} // verus!
fn main() {}
