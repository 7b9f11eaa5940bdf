//@include prelude.rs
//@include bytes.inc
//@include parts.inc
verus! {
//@lits
//@opt opaquelits, optmatch, forown
//@known escape_xml, PptxRepair::generate_content_types, PptxRepair::generate_package_rels, PptxRepair::generate_presentation_xml, PptxRepair::generate_presentation_rels, PptxRepair::repair_missing_namespace, PptxRepair::repair_empty_element, Package::get_part, Package::add_part, Package::has_part, Package::part_paths, scan_tags, XmlTag::attr, PptxRepair::validate_xml, RelationshipType::uri, check_required_parts_with_descriptions, PptxRepair::resolve_path, rels_source_dir, resolve_rel_target
// ------------------------------------------------- stand-ins (assumed by their documented meaning)
pub type Result<T, E = PptxError> = core::result::Result<T, E>;
pub enum PptxError { Generic(String), InvalidXml(String), NotFound(String) }
// the package as its own unit (C08) proves it: a table of parts by name
pub struct Package { pub parts: VxParts }
impl Package {
    #[verifier::external_body] pub fn get_part(&self, path: &str) -> (r: Option<&[u8]>) ensures r is Some <==> self.parts@.dom().contains(path@), r is Some ==> r->Some_0@ == self.parts@[path@] { unimplemented!() }
    #[verifier::external_body] pub fn add_part(&mut self, path: String, content: Vec<u8>) ensures final(self).parts@ == old(self).parts@.insert(path@, content@) { unimplemented!() }
    #[verifier::external_body] pub fn has_part(&self, path: &str) -> (r: bool) ensures r == self.parts@.dom().contains(path@) { unimplemented!() }
    #[verifier::external_body] pub fn part_paths(&self) -> (r: Vec<&str>) ensures forall|k: Seq<char>| #[trigger] self.parts@.dom().contains(k) <==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == k, forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i])@ != (#[trigger] r@[j])@ { unimplemented!() }
}
//@type oxml/repair.rs|RepairIssue
//@type oxml/repair.rs|RepairResult
//@type oxml/repair.rs|PptxRepair
// ------------------------------------------------- texts and the XML in them (C11's replay compares the reading with an independent parser)
pub mod vxb { use super::*;
pub uninterp spec fn enc(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn is_text(b: Seq<u8>) -> bool;
pub uninterp spec fn txt(b: Seq<u8>) -> Seq<char>;
pub broadcast axiom fn ax_enc(s: Seq<char>) ensures #![trigger enc(s)] is_text(enc(s)), txt(enc(s)) == s;
pub broadcast axiom fn ax_txt(b: Seq<u8>) ensures #![trigger txt(b)] is_text(b) ==> enc(txt(b)) == b;
}
use vxb::*;
broadcast use {vxb::ax_enc, vxb::ax_txt};
#[verifier::external_body] pub fn vx_utf8(b: &[u8]) -> (r: Option<&str>) ensures r is Some <==> is_text(b@), r is Some ==> r->Some_0@ == txt(b@) { std::str::from_utf8(b).ok() }
pub trait VxInto { fn vx_into_bytes(self) -> (r: Vec<u8>) ensures r@ == enc(self.isv()); spec fn isv(&self) -> Seq<char>; }
impl VxInto for String { open spec fn isv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_into_bytes(self) -> (r: Vec<u8>) { self.into_bytes() } }
pub struct Range<T> { pub start: T, pub end: T }
pub struct XmlTag { pub name: String, pub attributes: Vec<(String, String)>, pub span: Range<usize>, pub inner: Range<usize> }
pub struct TagV { pub name: Seq<char>, pub attrs: Map<Seq<char>, Seq<char>>, pub span: (int, int), pub inner: (int, int) }
pub uninterp spec fn tag_attrs(t: XmlTag) -> Map<Seq<char>, Seq<char>>;
impl XmlTag { #[verifier::external_body] pub fn attr(&self, name: &str) -> (r: Option<&str>) ensures r is Some <==> tag_attrs(*self).dom().contains(name@), r is Some ==> r->Some_0@ == tag_attrs(*self)[name@] { unimplemented!() } }
pub open spec fn tagv(t: XmlTag) -> TagV { TagV { name: t.name@, attrs: tag_attrs(t), span: (t.span.start as int, t.span.end as int), inner: (t.inner.start as int, t.inner.end as int) } }
pub open spec fn tagvs(v: Seq<XmlTag>) -> Seq<TagV> { v.map_values(|t: XmlTag| tagv(t)) }
pub uninterp spec fn wf(x: Seq<char>) -> bool;
// why a text is not well-formed
pub uninterp spec fn why(x: Seq<char>) -> Seq<char>;
// the elements of a text, none where it is not well-formed; their places lie between characters
pub uninterp spec fn tags(x: Seq<char>) -> Seq<TagV>;
pub open spec fn onchar(x: Seq<char>, b: int) -> bool { exists|i: int| at_byte(x, i, b) }
pub open spec fn placed(x: Seq<char>, t: TagV) -> bool { onchar(x, t.span.0) && onchar(x, t.span.1) && onchar(x, t.inner.0) && onchar(x, t.inner.1) && t.span.0 <= t.inner.0 <= t.inner.1 <= t.span.1 }
pub open spec fn all_placed(x: Seq<char>, v: Seq<TagV>) -> bool { forall|i: int| 0 <= i < v.len() ==> placed(x, #[trigger] v[i]) }
pub axiom fn ax_placed(x: Seq<char>) ensures all_placed(x, tags(x));
#[verifier::external_body] pub fn vx_tags(x: &str) -> (r: Vec<XmlTag>) ensures tagvs(r@) == tags(x@) { unimplemented!() }
#[verifier::external_body] pub fn scan_tags(x: &str) -> (r: Result<Vec<XmlTag>, String>) ensures r is Ok ==> tagvs(r->Ok_0@) == tags(x@), r is Ok <==> wf(x@), r is Err ==> tags(x@).len() == 0 { unimplemented!() }
#[verifier::external_body] pub fn vx_wf(x: &str) -> (r: Result<(), PptxError>) ensures r is Ok <==> wf(x@) { unimplemented!() }
// ------------------------------------------------- issues
pub enum IssV { Missing(Seq<char>, Seq<char>), Invalid(Seq<char>, Seq<char>), Broken(Seq<char>, Seq<char>, Seq<char>), Unlisted(Seq<char>), Orphan(Seq<char>), Untyped(Seq<char>), Other }
pub open spec fn issv(i: RepairIssue) -> IssV {
    match i {
        RepairIssue::MissingPart { path, description } => IssV::Missing(path@, description@),
        RepairIssue::InvalidXml { path, error } => IssV::Invalid(path@, error@),
        RepairIssue::BrokenRelationship { source, target, rel_id } => IssV::Broken(source@, target@, rel_id@),
        RepairIssue::MissingSlideReference { slide_path } => IssV::Unlisted(slide_path@),
        RepairIssue::OrphanSlide { slide_path } => IssV::Orphan(slide_path@),
        RepairIssue::InvalidContentType { path } => IssV::Untyped(path@),
        _ => IssV::Other,
    }
}
pub open spec fn says(v: Seq<RepairIssue>, e: IssV) -> bool { exists|i: int| 0 <= i < v.len() && issv(#[trigger] v[i]) == e }
pub open spec fn gains(a: Seq<RepairIssue>, b: Seq<RepairIssue>, d: spec_fn(IssV) -> bool) -> bool { forall|e: IssV| #![trigger says(b, e)] #![trigger says(a, e)] says(b, e) <==> says(a, e) || d(e) }
// one more issue
pub proof fn lemma_push(a: Seq<RepairIssue>) ensures forall|x: RepairIssue, e: IssV| #[trigger] says(a.push(x), e) <==> says(a, e) || e == issv(x) {
    assert forall|x: RepairIssue, e: IssV| #[trigger] says(a.push(x), e) <==> says(a, e) || e == issv(x) by {
        let b = a.push(x);
        if says(a, e) { let i = choose|i: int| 0 <= i < a.len() && issv(#[trigger] a[i]) == e; assert(b[i] == a[i]); }
        if e == issv(x) { assert(b[a.len() as int] == x); }
        if says(b, e) { let i = choose|i: int| 0 <= i < b.len() && issv(#[trigger] b[i]) == e; if i < a.len() { assert(b[i] == a[i]); } }
    }
}
//@fn RepairIssue::severity
//@ ensures: vx_ret as int == (match *self { RepairIssue::MissingPart { .. } | RepairIssue::InvalidXml { .. } | RepairIssue::CorruptedEntry { .. } => 3int, RepairIssue::OrphanSlide { .. } | RepairIssue::EmptyRequiredElement { .. } => 1int, _ => 2int })
//@end
//@fn RepairIssue::is_repairable
//@ ensures: vx_ret == !(*self is CorruptedEntry)
//@end
//@fn RepairResult::new
//@ ensures: vx_ret.issues_found@.len() == 0, vx_ret.issues_repaired@.len() == 0, vx_ret.issues_unrepaired@.len() == 0, vx_ret.is_valid
//@end
//@fn RepairResult::total_issues
//@ ensures: vx_ret == self.issues_found@.len()
//@end
//@fn RepairResult::fully_repaired
//@ ensures: vx_ret == (self.issues_unrepaired@.len() == 0)
//@end
pub open spec fn crit(v: Seq<RepairIssue>, k: int) -> int decreases k { if k <= 0 { 0 } else { crit(v, k - 1) + (if v[k - 1] is MissingPart || v[k - 1] is InvalidXml || v[k - 1] is CorruptedEntry { 1int } else { 0int }) } }
//@fn RepairResult::critical_issues
//@ loop 0 inv: vx_s0@ == self.issues_found@, vx_r0 <= vx_i0, vx_r0 as int == crit(self.issues_found@, vx_i0 as int)
//@ ensures: vx_ret as int == crit(self.issues_found@, self.issues_found@.len() as int)
//@end
// ------------------------------------------------- reading parts
impl PptxRepair {
    pub open spec fn pk(&self) -> Parts { self.package.parts@ }
}
pub open spec fn readable(p: Parts, n: Seq<char>) -> bool { p.dom().contains(n) && is_text(p[n]) }
pub open spec fn text_in(p: Parts, n: Seq<char>) -> Seq<char> { txt(p[n]) }
// the elements of a part, none where there is no such part or it is no well-formed text
pub open spec fn tags_in(p: Parts, n: Seq<char>) -> Seq<TagV> { if readable(p, n) { tags(text_in(p, n)) } else { Seq::<TagV>::empty() } }
//@fn PptxRepair::part_text
//@ sub: std::str::from_utf8(self.package.get_part(path)?).ok() =>> vx_utf8(self.package.get_part(path)?)
//@ ensures: vx_ret is Some <==> readable(self.pk(), path@), vx_ret is Some ==> vx_ret->Some_0@ == text_in(self.pk(), path@)
//@end
//@fn PptxRepair::part_tags
//@ sub: scan_tags(xml).unwrap_or_default() =>> vx_tags(xml)
//@ ensures: tagvs(vx_ret@) == tags_in(self.pk(), path@)
//@end
// ------------------------------------------------- what is wrong with a package
pub open spec fn RELS() -> Seq<char> { S"ppt/_rels/presentation.xml.rels" }
pub open spec fn PRES() -> Seq<char> { S"ppt/presentation.xml" }
pub open spec fn TYPES() -> Seq<char> { S"[Content_Types].xml" }
// ---- required parts
//@type core/validation.rs|ValidationIssue
//@const core/validation.rs|REQUIRED_PARTS_REPAIR
pub open spec fn needed(p: Seq<char>, d: Seq<char>) -> bool { (p == TYPES() && d == S"Content types definition") || (p == S"_rels/.rels" && d == S"Package relationships") || (p == PRES() && d == S"Presentation document") || (p == RELS() && d == S"Presentation relationships") }
pub open spec fn is_missing(i: ValidationIssue) -> bool { i is MissingPart && i->MissingPart_description is Some }
pub open spec fn mpath(i: ValidationIssue) -> Seq<char> { i->MissingPart_path@ }
pub open spec fn mdesc(i: ValidationIssue) -> Seq<char> { i->MissingPart_description->Some_0@ }
pub open spec fn told(v: Seq<ValidationIssue>, k: int, p: Seq<char>, d: Seq<char>) -> bool { exists|i: int| 0 <= i < k && mpath(#[trigger] v[i]) == p && mdesc(v[i]) == d }
pub open spec fn asked(v: Seq<(&'static str, &'static str)>, k: int, p: Seq<char>, d: Seq<char>) -> bool { exists|i: int| 0 <= i < k && (#[trigger] v[i]).0@ == p && v[i].1@ == d }
pub proof fn lemma_told(v: Seq<ValidationIssue>, k: int) requires 0 <= k < v.len() ensures forall|p: Seq<char>, d: Seq<char>| #![trigger told(v, k + 1, p, d)] told(v, k + 1, p, d) <==> told(v, k, p, d) || (mpath(v[k]) == p && mdesc(v[k]) == d) { assert forall|p: Seq<char>, d: Seq<char>| #![trigger told(v, k + 1, p, d)] told(v, k, p, d) || (mpath(v[k]) == p && mdesc(v[k]) == d) implies told(v, k + 1, p, d) by { if told(v, k, p, d) { let i = choose|i: int| 0 <= i < k && mpath(#[trigger] v[i]) == p && mdesc(v[i]) == d; assert(mpath(v[i]) == p); } } }
pub proof fn lemma_asked(v: Seq<(&'static str, &'static str)>, k: int) requires 0 <= k < v.len() ensures forall|p: Seq<char>, d: Seq<char>| #![trigger asked(v, k + 1, p, d)] asked(v, k + 1, p, d) <==> asked(v, k, p, d) || (v[k].0@ == p && v[k].1@ == d) { assert forall|p: Seq<char>, d: Seq<char>| #![trigger asked(v, k + 1, p, d)] asked(v, k, p, d) || (v[k].0@ == p && v[k].1@ == d) implies asked(v, k + 1, p, d) by { if asked(v, k, p, d) { let i = choose|i: int| 0 <= i < k && (#[trigger] v[i]).0@ == p && v[i].1@ == d; assert(v[i].0@ == p); } } }
pub proof fn lemma_told_pushed(v: Seq<ValidationIssue>, w: Seq<ValidationIssue>) requires w.len() == v.len() + 1, w.drop_last() == v ensures forall|p: Seq<char>, d: Seq<char>| #![trigger told(w, w.len() as int, p, d)] told(w, w.len() as int, p, d) <==> told(v, v.len() as int, p, d) || (mpath(w.last()) == p && mdesc(w.last()) == d) {
    lemma_told(w, v.len() as int);
    assert forall|p: Seq<char>, d: Seq<char>| #![trigger told(w, w.len() as int, p, d)] told(w, v.len() as int, p, d) == told(v, v.len() as int, p, d) by { if told(v, v.len() as int, p, d) { let i = choose|i: int| 0 <= i < v.len() && mpath(#[trigger] v[i]) == p && mdesc(v[i]) == d; assert(w[i] == v[i]); } if told(w, v.len() as int, p, d) { let i = choose|i: int| 0 <= i < v.len() && mpath(#[trigger] w[i]) == p && mdesc(w[i]) == d; assert(w[i] == v[i]); } }
}
//@fn core/validation.rs|check_required_parts_with_descriptions
//@ header: (package: &Package, required: &Vec<(&'static str, &'static str)>) -> (vx_ret: Vec<ValidationIssue>)
//@ sub: has_part(path) =>> package.has_part(path)
//@ loop 0 inv: tyv::<ValidationIssue>(vx_r0), vx_s0@ == required@, forall|i: int| 0 <= i < vx_r0@.len() ==> is_missing(#[trigger] vx_r0@[i]), forall|p: Seq<char>, d: Seq<char>| #[trigger] told(vx_r0@, vx_r0@.len() as int, p, d) <==> asked(required@, vx_i0 as int, p, d) && !package.parts@.dom().contains(p)
//@ loop 0 begin: let ghost vx_v = vx_r0@; proof { lemma_asked(required@, vx_i0 as int); }
//@ loop 0 end: proof { if vx_r0@.len() > vx_v.len() { assert(vx_r0@.drop_last() =~= vx_v); lemma_told_pushed(vx_v, vx_r0@); } }
//@ ensures: forall|i: int| 0 <= i < vx_ret@.len() ==> is_missing(#[trigger] vx_ret@[i]), forall|p: Seq<char>, d: Seq<char>| #[trigger] told(vx_ret@, vx_ret@.len() as int, p, d) <==> asked(required@, required@.len() as int, p, d) && !package.parts@.dom().contains(p)
//@end
pub open spec fn w_missing(p: Parts, e: IssV) -> bool { e is Missing && needed(e->Missing_0, e->Missing_1) && !p.dom().contains(e->Missing_0) }
pub fn vx_required() -> (r: Vec<(&'static str, &'static str)>) ensures forall|p: Seq<char>, d: Seq<char>| #![trigger asked(r@, r@.len() as int, p, d)] asked(r@, r@.len() as int, p, d) <==> needed(p, d) {
    let r = vx_strs_REQUIRED_PARTS_REPAIR();
    proof { assert forall|p: Seq<char>, d: Seq<char>| #![trigger asked(r@, r@.len() as int, p, d)] asked(r@, r@.len() as int, p, d) <==> needed(p, d) by { let _ = r@[0].0@; let _ = r@[1].0@; let _ = r@[2].0@; let _ = r@[3].0@; if needed(p, d) { assert((r@[0].0@ == p && r@[0].1@ == d) || (r@[1].0@ == p && r@[1].1@ == d) || (r@[2].0@ == p && r@[2].1@ == d) || (r@[3].0@ == p && r@[3].1@ == d)); } } }
    r
}
//@fn PptxRepair::check_required_parts
//@ sub: check_required_parts_with_descriptions(|path| self.package.has_part(path), REQUIRED_PARTS_REPAIR,) =>> check_required_parts_with_descriptions(&self.package, &vx_required())
//@ begin: let ghost vx_o = self.issues@;
//@ loop 0 inv: self.package == old(self).package, forall|i: int| 0 <= i < vx_s0@.len() ==> is_missing(#[trigger] vx_s0@[i]), forall|p: Seq<char>, d: Seq<char>| #[trigger] told(vx_s0@, vx_s0@.len() as int, p, d) <==> needed(p, d) && !self.pk().dom().contains(p), forall|e: IssV| #![trigger says(self.issues@, e)] #![trigger says(vx_o, e)] says(self.issues@, e) <==> says(vx_o, e) || (e is Missing && told(vx_s0@, vx_i0 as int, e->Missing_0, e->Missing_1))
//@ loop 0 begin: proof { lemma_push(self.issues@); lemma_told(vx_s0@, vx_i0 as int); let _ = vx_s0@[vx_i0 as int]; }
//@ ensures: final(self).package == old(self).package, gains(old(self).issues@, final(self).issues@, |e: IssV| w_missing(old(self).pk(), e))
//@end
// ---- texts
pub open spec fn among(v: Seq<String>, k: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && (#[trigger] v[i])@ == n }
pub open spec fn amongr(v: Seq<&str>, k: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && (#[trigger] v[i])@ == n }
pub proof fn lemma_among(v: Seq<String>, k: int) requires 0 <= k < v.len() ensures forall|n: Seq<char>| #![trigger among(v, k + 1, n)] among(v, k + 1, n) <==> among(v, k, n) || n == v[k]@ { assert forall|n: Seq<char>| #![trigger among(v, k + 1, n)] among(v, k, n) || n == v[k]@ implies among(v, k + 1, n) by { if among(v, k, n) { let i = choose|i: int| 0 <= i < k && (#[trigger] v[i])@ == n; assert(v[i]@ == n); } } }
pub proof fn lemma_amongr(v: Seq<&str>, k: int) requires 0 <= k < v.len() ensures forall|n: Seq<char>| #![trigger amongr(v, k + 1, n)] amongr(v, k + 1, n) <==> amongr(v, k, n) || n == v[k]@ { assert forall|n: Seq<char>| #![trigger amongr(v, k + 1, n)] amongr(v, k, n) || n == v[k]@ implies amongr(v, k + 1, n) by { if amongr(v, k, n) { let i = choose|i: int| 0 <= i < k && (#[trigger] v[i])@ == n; assert(v[i]@ == n); } } }
pub proof fn lemma_pushed(v: Seq<String>, w: Seq<String>) requires w.len() == v.len() + 1, w.drop_last() == v ensures forall|n: Seq<char>| #![trigger among(w, w.len() as int, n)] among(w, w.len() as int, n) <==> among(v, v.len() as int, n) || n == w.last()@ {
    lemma_among(w, v.len() as int);
    assert forall|n: Seq<char>| #![trigger among(w, w.len() as int, n)] among(w, v.len() as int, n) == among(v, v.len() as int, n) by { if among(v, v.len() as int, n) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == n; assert(w[i] == v[i]); } if among(w, v.len() as int, n) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] w[i])@ == n; assert(w[i] == v[i]); } }
}
pub fn vx_own(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
pub open spec fn xmlish(n: Seq<char>) -> bool { has_suffix(n, S".xml") || has_suffix(n, S".rels") }
impl PptxRepair { #[verifier::external_body] pub fn validate_xml(&self, xml: &str) -> (r: Result<(), String>) ensures r is Ok <==> wf(xml@), r is Err ==> r->Err_0@ == why(xml@) { unimplemented!() } }
pub open spec fn flawed(p: Parts, n: Seq<char>, e: Seq<char>) -> bool { if readable(p, n) { !wf(text_in(p, n)) && e == why(text_in(p, n)) } else { e == S"not UTF-8 text" } }
pub open spec fn w_invalid(p: Parts, e: IssV) -> bool { e is Invalid && p.dom().contains(e->Invalid_0) && xmlish(e->Invalid_0) && flawed(p, e->Invalid_0, e->Invalid_1) }
//@fn PptxRepair::check_xml_validity
//@ opt: noinline
//@ sub: |s| s.to_string() =>> |s| vx_own(s)
//@ begin: let ghost vx_o = self.issues@; let ghost vx_p = self.pk();
//@ loop 0 inv: tyv::<String>(vx_r0), *self == *old(self), vx_p == self.pk(), forall|k: Seq<char>| #[trigger] vx_p.dom().contains(k) <==> exists|i: int| 0 <= i < vx_s0@.len() && (#[trigger] vx_s0@[i])@ == k, forall|n: Seq<char>| #[trigger] among(vx_r0@, vx_r0@.len() as int, n) <==> amongr(vx_s0@, vx_i0 as int, n) && xmlish(n)
//@ loop 0 begin: let ghost vx_v = vx_r0@; proof { lemma_amongr(vx_s0@, vx_i0 as int); }
//@ loop 0 end: proof { if vx_r0@.len() > vx_v.len() { assert(vx_r0@.drop_last() =~= vx_v); lemma_pushed(vx_v, vx_r0@); } }
//@ loop 0 post: assert forall|n: Seq<char>| #[trigger] among(vx_r0@, vx_r0@.len() as int, n) <==> vx_p.dom().contains(n) && xmlish(n) by { assert(amongr(vx_s0@, vx_i0 as int, n) <==> vx_p.dom().contains(n)); }
//@ loop 1 inv: self.pk() == vx_p, self.package == old(self).package, forall|e: IssV| #![trigger says(self.issues@, e)] #![trigger says(vx_o, e)] says(self.issues@, e) <==> says(vx_o, e) || (e is Invalid && among(vx_s1@, vx_i1 as int, e->Invalid_0) && flawed(vx_p, e->Invalid_0, e->Invalid_1))
//@ loop 1 begin: proof { lemma_push(self.issues@); lemma_among(vx_s1@, vx_i1 as int); }
//@ ensures: final(self).package == old(self).package, gains(old(self).issues@, final(self).issues@, |e: IssV| w_invalid(old(self).pk(), e))
//@end
// ---- relationships to parts
pub open spec fn has(t: TagV, a: Seq<char>) -> bool { t.attrs.dom().contains(a) }
pub open spec fn val(t: TagV, a: Seq<char>) -> Seq<char> { if has(t, a) { t.attrs[a] } else { Seq::<char>::empty() } }
#[verifier::external_body] pub fn vx_or_empty(o: Option<&str>) -> (r: &str) ensures r@ == (match o { Some(s) => s@, None => Seq::<char>::empty() }) { o.unwrap_or_default() }
#[verifier::external_body] pub fn vx_is(o: Option<&str>, s: &str) -> (r: bool) ensures r == (o is Some && o->Some_0@ == s@) { o == Some(s) }
pub open spec fn is_rel(t: TagV) -> bool { t.name == S"Relationship" && !(has(t, S"TargetMode") && val(t, S"TargetMode") == S"External") && has(t, S"Target") && !has_prefix(val(t, S"Target"), S"http://") && !has_prefix(val(t, S"Target"), S"https://") }
// the part a target of relationships part f names
pub uninterp spec fn resolved(f: Seq<char>, t: Seq<char>) -> Seq<char>;
impl PptxRepair { #[verifier::external_body] pub fn resolve_path(&self, rels_path: &str, target: &str) -> (r: String) ensures r@ == resolved(rels_path@, target@) { unimplemented!() } }
pub struct RelV { pub tag: TagV, pub path: Seq<char> }
pub open spec fn rels_upto(f: Seq<char>, v: Seq<TagV>, k: int) -> Seq<RelV> decreases k { if k <= 0 { Seq::<RelV>::empty() } else if is_rel(v[k - 1]) { rels_upto(f, v, k - 1).push(RelV { tag: v[k - 1], path: resolved(f, val(v[k - 1], S"Target")) }) } else { rels_upto(f, v, k - 1) } }
// the relationships of part f of package p to parts, in order
pub open spec fn rels_of(p: Parts, f: Seq<char>) -> Seq<RelV> { rels_upto(f, tags_in(p, f), tags_in(p, f).len() as int) }
pub open spec fn relvs(v: Seq<(XmlTag, String)>) -> Seq<RelV> { v.map_values(|x: (XmlTag, String)| RelV { tag: tagv(x.0), path: x.1@ }) }
//@fn PptxRepair::internal_relationships
//@ opt: streq
//@ sub: tag.attr("TargetMode") == Some("External") =>> vx_is(tag.attr("TargetMode"), "External")
//@ loop 0 inv: tyv::<(XmlTag, String)>(found), tagvs(vx_s0@) == tags_in(self.pk(), rels_path@), relvs(found@) == rels_upto(rels_path@, tags_in(self.pk(), rels_path@), vx_i0 as int)
//@ loop 0 begin: let ghost vx_f = found@; proof { assert(tagvs(vx_s0@)[vx_i0 as int] == tagv(vx_s0@[vx_i0 as int])); }
//@ loop 0 end: proof { assert(relvs(found@) =~= relvs(vx_f).push(RelV { tag: tags_in(self.pk(), rels_path@)[vx_i0 - 1], path: resolved(rels_path@, val(tags_in(self.pk(), rels_path@)[vx_i0 - 1], S"Target")) })); }
//@ ensures: relvs(vx_ret@) == rels_of(self.pk(), rels_path@)
//@end
pub open spec fn breaks(p: Parts, v: Seq<RelV>, k: int, t: Seq<char>, id: Seq<char>) -> bool { exists|i: int| 0 <= i < k && (#[trigger] v[i]).path == t && val(v[i].tag, S"Id") == id && !p.dom().contains(t) }
pub proof fn lemma_breaks(p: Parts, v: Seq<RelV>, k: int) requires 0 <= k < v.len() ensures forall|t: Seq<char>, id: Seq<char>| #![trigger breaks(p, v, k + 1, t, id)] breaks(p, v, k + 1, t, id) <==> breaks(p, v, k, t, id) || (v[k].path == t && val(v[k].tag, S"Id") == id && !p.dom().contains(t)) {
    assert forall|t: Seq<char>, id: Seq<char>| #![trigger breaks(p, v, k + 1, t, id)] breaks(p, v, k, t, id) || (v[k].path == t && val(v[k].tag, S"Id") == id && !p.dom().contains(t)) implies breaks(p, v, k + 1, t, id) by { if breaks(p, v, k, t, id) { let i = choose|i: int| 0 <= i < k && (#[trigger] v[i]).path == t && val(v[i].tag, S"Id") == id && !p.dom().contains(t); assert(v[i].path == t); } }
}
pub open spec fn broken_in(p: Parts, f: Seq<char>, e: IssV) -> bool { e is Broken && e->Broken_0 == f && breaks(p, rels_of(p, f), rels_of(p, f).len() as int, e->Broken_1, e->Broken_2) }
//@fn PptxRepair::check_rels_file
//@ sub: rel.attr("Id").unwrap_or_default() =>> vx_or_empty(rel.attr("Id"))
//@ begin: let ghost vx_o = self.issues@; let ghost vx_p = self.pk();
//@ loop 0 inv: self.package == old(self).package, vx_p == self.pk(), relvs(vx_s0@) == rels_of(vx_p, rels_path@), forall|e: IssV| #![trigger says(self.issues@, e)] #![trigger says(vx_o, e)] says(self.issues@, e) <==> says(vx_o, e) || (e is Broken && e->Broken_0 == rels_path@ && breaks(vx_p, rels_of(vx_p, rels_path@), vx_i0 as int, e->Broken_1, e->Broken_2))
//@ loop 0 begin: proof { lemma_push(self.issues@); lemma_breaks(vx_p, rels_of(vx_p, rels_path@), vx_i0 as int); assert(relvs(vx_s0@)[vx_i0 as int] == (RelV { tag: tagv(vx_s0@[vx_i0 as int].0), path: vx_s0@[vx_i0 as int].1@ })); }
//@ ensures: final(self).package == old(self).package, gains(old(self).issues@, final(self).issues@, |e: IssV| broken_in(old(self).pk(), rels_path@, e))
//@end
pub open spec fn slide_rels(n: Seq<char>) -> bool { has_prefix(n, S"ppt/slides/_rels/") && has_suffix(n, S".xml.rels") }
pub open spec fn rels_file(p: Parts, n: Seq<char>) -> bool { n == S"_rels/.rels" || n == RELS() || (p.dom().contains(n) && slide_rels(n)) }
pub open spec fn w_broken(p: Parts, e: IssV) -> bool { e is Broken && rels_file(p, e->Broken_0) && broken_in(p, e->Broken_0, e) }
//@fn PptxRepair::check_relationships
//@ opt: noinline
//@ sub: |s| s.to_string() =>> |s| vx_own(s)
//@ begin: let ghost vx_o = self.issues@; let ghost vx_p = self.pk();
//@ loop 0 pre: let ghost vx_m = *self;
//@ loop 0 inv: tyv::<String>(vx_r0), *self == vx_m, vx_p == self.pk(), forall|k: Seq<char>| #[trigger] vx_p.dom().contains(k) <==> exists|i: int| 0 <= i < vx_s0@.len() && (#[trigger] vx_s0@[i])@ == k, forall|n: Seq<char>| #[trigger] among(vx_r0@, vx_r0@.len() as int, n) <==> amongr(vx_s0@, vx_i0 as int, n) && slide_rels(n)
//@ loop 0 begin: let ghost vx_v = vx_r0@; proof { lemma_amongr(vx_s0@, vx_i0 as int); }
//@ loop 0 end: proof { if vx_r0@.len() > vx_v.len() { assert(vx_r0@.drop_last() =~= vx_v); lemma_pushed(vx_v, vx_r0@); } }
//@ loop 0 post: assert forall|n: Seq<char>| #[trigger] among(vx_r0@, vx_r0@.len() as int, n) <==> vx_p.dom().contains(n) && slide_rels(n) by { assert(amongr(vx_s0@, vx_i0 as int, n) <==> vx_p.dom().contains(n)); }
//@ loop 1 inv: self.pk() == vx_p, self.package == old(self).package, forall|e: IssV| #![trigger says(self.issues@, e)] #![trigger says(vx_o, e)] says(self.issues@, e) <==> says(vx_o, e) || (e is Broken && (e->Broken_0 == S"_rels/.rels" || e->Broken_0 == RELS() || among(vx_s1@, vx_i1 as int, e->Broken_0)) && broken_in(vx_p, e->Broken_0, e))
//@ loop 1 begin: proof { lemma_among(vx_s1@, vx_i1 as int); }
//@ ensures: final(self).package == old(self).package, gains(old(self).issues@, final(self).issues@, |e: IssV| w_broken(old(self).pk(), e))
//@end
// ---- slides
pub uninterp spec fn slide_type(t: Seq<char>) -> bool;
#[verifier::external_body] pub fn vx_is_slide(t: &str) -> (r: bool) ensures r == slide_type(t@) { unimplemented!() }
pub type Pair = (Seq<char>, Seq<char>);
pub open spec fn pairs(v: Seq<(String, String)>) -> Seq<Pair> { v.map_values(|x: (String, String)| (x.0@, x.1@)) }
pub open spec fn slides_upto(v: Seq<RelV>, k: int) -> Seq<Pair> decreases k { if k <= 0 { Seq::<Pair>::empty() } else if slide_type(val(v[k - 1].tag, S"Type")) { slides_upto(v, k - 1).push((val(v[k - 1].tag, S"Id"), v[k - 1].path)) } else { slides_upto(v, k - 1) } }
// the slides the presentation is related to: id and path of each, in order
pub open spec fn linked(p: Parts) -> Seq<Pair> { slides_upto(rels_of(p, RELS()), rels_of(p, RELS()).len() as int) }
//@fn PptxRepair::slide_relationships
//@ sub: RelationshipType::from_uri(rel_type) == RelationshipType::Slide =>> vx_is_slide(rel_type)
//@ sub: rel.attr("Type").unwrap_or_default() =>> vx_or_empty(rel.attr("Type"))
//@ sub: rel.attr("Id").unwrap_or_default() =>> vx_or_empty(rel.attr("Id"))
//@ loop 0 inv: tyv::<(String, String)>(slides), relvs(vx_s0@) == rels_of(self.pk(), RELS()), pairs(slides@) == slides_upto(rels_of(self.pk(), RELS()), vx_i0 as int)
//@ loop 0 begin: let ghost vx_f = slides@; proof { assert(relvs(vx_s0@)[vx_i0 as int] == (RelV { tag: tagv(vx_s0@[vx_i0 as int].0), path: vx_s0@[vx_i0 as int].1@ })); }
//@ loop 0 end: proof { if slides@.len() > vx_f.len() { assert(pairs(slides@) =~= pairs(vx_f).push((val(rels_of(self.pk(), RELS())[vx_i0 - 1].tag, S"Id"), rels_of(self.pk(), RELS())[vx_i0 - 1].path))); } }
//@ ensures: pairs(vx_ret@) == linked(self.pk())
//@end
pub open spec fn is_pres(t: TagV) -> bool { t.name == S"p:presentation" }
pub open spec fn names(t: TagV, id: Seq<char>) -> bool { t.name == S"p:sldId" && has(t, S"r:id") && val(t, S"r:id") == id }
// what is no presentation lists everything: there is nothing to add a slide to
pub open spec fn listed(v: Seq<TagV>, id: Seq<char>) -> bool { !(exists|i: int| 0 <= i < v.len() && is_pres(#[trigger] v[i])) || exists|i: int| 0 <= i < v.len() && names(#[trigger] v[i], id) }
//@fn is_listed
//@ opt: streq
//@ sub: tag.attr("r:id") == Some(rel_id) =>> vx_is(tag.attr("r:id"), rel_id)
//@ loop 0 inv: vx_s0@ == presentation@, !vx_r0 ==> forall|i: int| 0 <= i < vx_i0 ==> !is_pres(#[trigger] tagvs(presentation@)[i]), vx_r0 ==> 0 <= vx_i0 < presentation@.len() && is_pres(tagvs(presentation@)[vx_i0 as int])
//@ loop 1 inv: vx_s1@ == presentation@, !vx_r1 ==> forall|i: int| 0 <= i < vx_i1 ==> !names(#[trigger] tagvs(presentation@)[i], rel_id@), vx_r1 ==> 0 <= vx_i1 < presentation@.len() && names(tagvs(presentation@)[vx_i1 as int], rel_id@)
//@ ensures: vx_ret == listed(tagvs(presentation@), rel_id@)
//@end
pub open spec fn slide_name(n: Seq<char>) -> bool { has_prefix(n, S"ppt/slides/slide") && has_suffix(n, S".xml") && !has_sub(n, S"_rels") }
pub open spec fn leads(v: Seq<Pair>, k: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && (#[trigger] v[i]).1 == n }
pub proof fn lemma_leads(v: Seq<Pair>, k: int) requires 0 <= k < v.len() ensures forall|n: Seq<char>| #![trigger leads(v, k + 1, n)] leads(v, k + 1, n) <==> leads(v, k, n) || n == v[k].1 { assert forall|n: Seq<char>| #![trigger leads(v, k + 1, n)] leads(v, k, n) || n == v[k].1 implies leads(v, k + 1, n) by { if leads(v, k, n) { let i = choose|i: int| 0 <= i < k && (#[trigger] v[i]).1 == n; assert(v[i].1 == n); } } }
pub open spec fn mentioned(v: Seq<Pair>, t: Seq<TagV>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == n && listed(t, v[i].0) }
pub open spec fn w_orphan(p: Parts, e: IssV) -> bool { e is Orphan && leads(linked(p), linked(p).len() as int, e->Orphan_0) && !p.dom().contains(e->Orphan_0) }
pub open spec fn w_unlisted(p: Parts, e: IssV) -> bool { e is Unlisted && p.dom().contains(e->Unlisted_0) && slide_name(e->Unlisted_0) && !mentioned(linked(p), tags_in(p, PRES()), e->Unlisted_0) }
// a sort of the code by a closure: any rearrangement will do here
#[verifier::external_body] pub fn vx_sort_slides(v: &mut Vec<String>) ensures forall|n: Seq<char>| #![trigger among(final(v)@, final(v)@.len() as int, n)] among(final(v)@, final(v)@.len() as int, n) <==> among(old(v)@, old(v)@.len() as int, n) { v.sort_by(|a, b| (a.len(), a).cmp(&(b.len(), b))) }
//@fn PptxRepair::check_slide_references
//@ opt: noinline, streq
//@ sub: |s| s.to_string() =>> |s| vx_own(s)
//@ sub: slides.sort_by(|a, b| (a.len(), a).cmp(&(b.len(), b))) =>> vx_sort_slides(&mut slides)
//@ begin: let ghost vx_o = self.issues@; let ghost vx_p = self.pk();
//@ loop 0 inv: self.package == old(self).package, vx_p == self.pk(), pairs(vx_s0@) == linked(vx_p), forall|e: IssV| #![trigger says(self.issues@, e)] #![trigger says(vx_o, e)] says(self.issues@, e) <==> says(vx_o, e) || (e is Orphan && leads(linked(vx_p), vx_i0 as int, e->Orphan_0) && !vx_p.dom().contains(e->Orphan_0))
//@ loop 0 begin: proof { lemma_push(self.issues@); lemma_leads(linked(vx_p), vx_i0 as int); assert(pairs(vx_s0@)[vx_i0 as int] == (vx_s0@[vx_i0 as int].0@, vx_s0@[vx_i0 as int].1@)); }
//@ loop 1 pre: let ghost vx_m = *self;
//@ loop 1 inv: tyv::<String>(vx_r1), *self == vx_m, vx_p == self.pk(), forall|k: Seq<char>| #[trigger] vx_p.dom().contains(k) <==> exists|i: int| 0 <= i < vx_s1@.len() && (#[trigger] vx_s1@[i])@ == k, forall|n: Seq<char>| #[trigger] among(vx_r1@, vx_r1@.len() as int, n) <==> amongr(vx_s1@, vx_i1 as int, n) && slide_name(n)
//@ loop 1 begin: let ghost vx_v = vx_r1@; proof { lemma_amongr(vx_s1@, vx_i1 as int); }
//@ loop 1 end: proof { if vx_r1@.len() > vx_v.len() { assert(vx_r1@.drop_last() =~= vx_v); lemma_pushed(vx_v, vx_r1@); } }
//@ loop 1 post: assert forall|n: Seq<char>| #[trigger] among(vx_r1@, vx_r1@.len() as int, n) <==> vx_p.dom().contains(n) && slide_name(n) by { assert(amongr(vx_s1@, vx_i1 as int, n) <==> vx_p.dom().contains(n)); }
//@ loop 2 pre: let ghost vx_n = self.issues@;
//@ loop 2 inv: self.pk() == vx_p, self.package == old(self).package, pairs(related@) == linked(vx_p), tagvs(presentation@) == tags_in(vx_p, PRES()), forall|e: IssV| #![trigger says(self.issues@, e)] #![trigger says(vx_n, e)] says(self.issues@, e) <==> says(vx_n, e) || (e is Unlisted && among(vx_s2@, vx_i2 as int, e->Unlisted_0) && !mentioned(linked(vx_p), tags_in(vx_p, PRES()), e->Unlisted_0))
//@ loop 2 begin: proof { lemma_push(self.issues@); lemma_among(vx_s2@, vx_i2 as int); }
//@ loop 3 inv: vx_s3@ == related@, pairs(related@) == linked(vx_p), tagvs(presentation@) == tags_in(vx_p, PRES()), !vx_r3 ==> forall|i: int| 0 <= i < vx_i3 ==> !((#[trigger] linked(vx_p)[i]).1 == slide_path@ && listed(tags_in(vx_p, PRES()), linked(vx_p)[i].0)), vx_r3 ==> 0 <= vx_i3 < related@.len() && linked(vx_p)[vx_i3 as int].1 == slide_path@ && listed(tags_in(vx_p, PRES()), linked(vx_p)[vx_i3 as int].0)
//@ loop 3 begin: proof { assert(pairs(related@)[vx_i3 as int] == (related@[vx_i3 as int].0@, related@[vx_i3 as int].1@)); }
//@ ensures: final(self).package == old(self).package, gains(old(self).issues@, final(self).issues@, |e: IssV| w_orphan(old(self).pk(), e) || w_unlisted(old(self).pk(), e))
//@end
// ---- content types
pub uninterp spec fn ext(n: Seq<char>) -> Seq<char>;
pub uninterp spec fn same_case(a: Seq<char>, b: Seq<char>) -> bool;
#[verifier::external_body] pub fn vx_ext(n: &str) -> (r: &str) ensures r@ == ext(n@) { n.rsplit('.').next().unwrap_or("") }
#[verifier::external_body] pub fn vx_same_case(a: Option<&str>, b: &str) -> (r: bool) ensures r == (a is Some && same_case(a->Some_0@, b@)) { a.is_some_and(|x| x.eq_ignore_ascii_case(b)) }
#[verifier::external_body] pub fn vx_is_part(a: Option<&str>, n: &str) -> (r: bool) ensures r == (a is Some && a->Some_0@ == S"/" + n@) { a.and_then(|x| x.strip_prefix('/')) == Some(n) }
pub open spec fn declares(t: TagV, n: Seq<char>) -> bool { if t.name == S"Override" { has(t, S"PartName") && val(t, S"PartName") == S"/" + n } else { t.name == S"Default" && has(t, S"Extension") && same_case(val(t, S"Extension"), ext(n)) } }
pub open spec fn typed(v: Seq<TagV>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && declares(#[trigger] v[i], n) }
pub open spec fn untyped(p: Parts, n: Seq<char>) -> bool { n != TYPES() && !has_suffix(n, S".rels") && !typed(tags_in(p, TYPES()), n) }
pub open spec fn w_untyped(p: Parts, e: IssV) -> bool { e is Untyped && p.dom().contains(e->Untyped_0) && tags_in(p, TYPES()).len() > 0 && untyped(p, e->Untyped_0) }
//@fn PptxRepair::check_content_types
//@ opt: streq
//@ sub: part.rsplit('.').next().unwrap_or("") =>> vx_ext(part)
//@ sub: tag.attr("PartName").and_then(|name| name.strip_prefix('/')) == Some(part) =>> vx_is_part(tag.attr("PartName"), part)
//@ sub: tag.attr("Extension").is_some_and(|default| default.eq_ignore_ascii_case(extension)) =>> vx_same_case(tag.attr("Extension"), extension)
//@ begin: let ghost vx_o = self.issues@; let ghost vx_p = self.pk();
//@ loop 0 inv: self.package == old(self).package, vx_p == self.pk(), tagvs(tags@) == tags_in(vx_p, TYPES()), forall|k: Seq<char>| #[trigger] vx_p.dom().contains(k) <==> exists|i: int| 0 <= i < vx_s0@.len() && (#[trigger] vx_s0@[i])@ == k, forall|e: IssV| #![trigger says(self.issues@, e)] #![trigger says(vx_o, e)] says(self.issues@, e) <==> says(vx_o, e) || (e is Untyped && amongr(vx_s0@, vx_i0 as int, e->Untyped_0) && untyped(vx_p, e->Untyped_0))
//@ loop 0 begin: proof { lemma_push(self.issues@); lemma_amongr(vx_s0@, vx_i0 as int); }
//@ loop 0 post: assert forall|n: Seq<char>| #[trigger] amongr(vx_s0@, vx_i0 as int, n) <==> vx_p.dom().contains(n) by {}
//@ loop 1 inv: vx_s1@ == tags@, tagvs(tags@) == tags_in(vx_p, TYPES()), extension@ == ext(part@), !vx_r1 ==> forall|i: int| 0 <= i < vx_i1 ==> !declares(#[trigger] tags_in(vx_p, TYPES())[i], part@), vx_r1 ==> 0 <= vx_i1 < tags@.len() && declares(tags_in(vx_p, TYPES())[vx_i1 as int], part@)
//@ loop 1 begin: proof { assert(tagvs(tags@)[vx_i1 as int] == tagv(tags@[vx_i1 as int])); }
//@ ensures: final(self).package == old(self).package, gains(old(self).issues@, final(self).issues@, |e: IssV| w_untyped(old(self).pk(), e))
//@end
// ---- all of it
pub open spec fn wrong(p: Parts, e: IssV) -> bool { w_missing(p, e) || w_invalid(p, e) || w_broken(p, e) || w_orphan(p, e) || w_unlisted(p, e) || w_untyped(p, e) }
pub open spec fn eqi(a: RepairIssue, b: RepairIssue) -> bool { a == b }
#[verifier::external_body] pub fn vx_clone_issues(v: &Vec<RepairIssue>) -> (r: Vec<RepairIssue>) ensures r@ == v@ { unimplemented!() }
//@fn PptxRepair::validate
//@ sub: self.issues.clone() =>> vx_clone_issues(&self.issues)
//@ ensures: final(self).package == old(self).package, forall|e: IssV| #![trigger says(vx_ret@, e)] #![trigger wrong(old(self).pk(), e)] says(vx_ret@, e) <==> wrong(old(self).pk(), e)
//@end
// ------------------------------------------------- repairs
// ---- mending a text
pub uninterp spec fn unmarked(x: Seq<char>) -> Seq<char>;
pub uninterp spec fn trimmed(x: Seq<char>) -> Seq<char>;
pub uninterp spec fn ref_name(x: Seq<char>) -> bool;
#[verifier::external_body] pub fn vx_unmarked(x: &str) -> (r: &str) ensures r@ == unmarked(x@) { x.strip_prefix('\u{feff}').unwrap_or(x) }
#[verifier::external_body] pub fn vx_trim(x: &str) -> (r: &str) ensures r@ == trimmed(x@) { x.trim() }
#[verifier::external_body] pub fn vx_ref_name(x: &str) -> (r: bool) ensures r == ref_name(x@) { unimplemented!() }
pub open spec fn first_c(s: Seq<char>, c: char, i: int) -> bool { 0 <= i < s.len() && s[i] == c && forall|j: int| 0 <= j < i ==> #[trigger] s[j] != c }
#[verifier::external_body] pub fn vx_split_semi(x: &str) -> (r: Option<(&str, &str)>) ensures r is None ==> !has_char(x@, ';'), r is Some ==> exists|i: int| first_c(x@, ';', i) && r->Some_0.0@ == x@.take(i) && r->Some_0.1@ == x@.skip(i + 1) { x.split_once(';') }
#[verifier::external_body] pub fn vx_find_amp(x: &str) -> (r: Option<usize>) ensures r is None ==> !has_char(x@, '&'), r is Some ==> exists|i: int| first_c(x@, '&', i) && #[trigger] at_byte(x@, i, r->Some_0 as int), r is Some ==> r->Some_0 < usize::MAX { x.find('&') }
// what follows an ampersand makes it a reference
pub open spec fn starts_ref(s: Seq<char>) -> bool { exists|i: int| first_c(s, ';', i) && ref_name(s.take(i)) }
// every bare ampersand escaped, every other character kept
pub open spec fn amp(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else if s[0] == '&' { (if starts_ref(s.skip(1)) { S"&" } else { S"&amp;" }) + amp(s.skip(1)) } else { seq![s[0]] + amp(s.skip(1)) } }
pub proof fn lemma_amp(s: Seq<char>, i: int) requires 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> #[trigger] s[j] != '&' ensures amp(s) == s.take(i) + amp(s.skip(i)) decreases i {
    if i > 0 {
        assert forall|j: int| 0 <= j < i - 1 implies #[trigger] s.skip(1)[j] != '&' by { assert(s[j + 1] != '&'); }
        assert(s[0] != '&');
        lemma_amp(s.skip(1), i - 1);
        assert(s.skip(1).skip(i - 1) =~= s.skip(i)); assert(seq![s[0]] + s.skip(1).take(i - 1) =~= s.take(i));
        assert(seq![s[0]] + (s.skip(1).take(i - 1) + amp(s.skip(i))) =~= s.take(i) + amp(s.skip(i)));
    } else { assert(s.skip(0) =~= s); assert(s.take(0) + amp(s) =~= amp(s)); }
}
pub open spec fn decl(x: Seq<char>) -> Seq<char> { if has_prefix(trimmed(x), S"<?xml") { Seq::<char>::empty() } else { S"<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n" } }
pub open spec fn mended(x: Seq<char>) -> Seq<char> { decl(unmarked(x)) + amp(unmarked(x)) }
pub proof fn lemma_first(s: Seq<char>, i: int, j: int) requires first_c(s, ';', i), first_c(s, ';', j) ensures i == j { if i < j { assert(s[i] != ';'); } if j < i { assert(s[j] != ';'); } }
// the step of the loop: text up to the ampersand, then what follows it
pub proof fn lemma_amp_step(s: Seq<char>, b: int) requires exists|i: int| first_c(s, '&', i) && #[trigger] at_byte(s, i, b)
    ensures byte_range(s, 0, b), byte_range(s, b + 1, blen(s)), byte_sub(s, b + 1, blen(s)).len() < s.len(), amp(s) == byte_sub(s, 0, b) + (if starts_ref(byte_sub(s, b + 1, blen(s))) { S"&" } else { S"&amp;" }) + amp(byte_sub(s, b + 1, blen(s)))
{
    let i = choose|i: int| first_c(s, '&', i) && #[trigger] at_byte(s, i, b);
    lemma_at_end(s); lemma_blen_step(s, i); lemma_blen_le(s, i + 1); lemma_blen_le(s, i);
    assert(at_byte(s, i + 1, b + 1));
    assert(at_byte(s, 0, 0));
    if i > 0 { lemma_blen_mono(s, 0, i); }
    lemma_byte_sub(s, 0, i, 0, b); lemma_byte_sub(s, i + 1, s.len() as int, b + 1, blen(s));
    assert(s.subrange(0, i) =~= s.take(i)); assert(s.subrange(i + 1, s.len() as int) =~= s.skip(i + 1));
    lemma_amp(s, i);
    assert(s.skip(i)[0] == '&'); assert(s.skip(i).skip(1) =~= s.skip(i + 1));
    assert(s.take(i) + ((if starts_ref(s.skip(i + 1)) { S"&" } else { S"&amp;" }) + amp(s.skip(i + 1))) =~= s.take(i) + (if starts_ref(s.skip(i + 1)) { S"&" } else { S"&amp;" }) + amp(s.skip(i + 1)));
}
pub open spec fn amp_to(s: Seq<char>, b: int, after: Seq<char>) -> Seq<char> { byte_sub(s, 0, b) + (if starts_ref(after) { S"&" } else { S"&amp;" }) + amp(after) }
pub fn vx_next_amp(x: &str) -> (r: Option<usize>) ensures r is None ==> amp(x@) == x@, r is Some ==> r->Some_0 < usize::MAX && byte_range(x@, 0, r->Some_0 as int) && byte_range(x@, r->Some_0 + 1, blen(x@)) && byte_sub(x@, r->Some_0 + 1, blen(x@)).len() < x@.len() && amp(x@) == amp_to(x@, r->Some_0 as int, byte_sub(x@, r->Some_0 + 1, blen(x@))) {
    let r = vx_find_amp(x);
    proof { match r { Some(b) => { lemma_amp_step(x@, b as int); } None => { lemma_amp(x@, x@.len() as int); assert(x@.take(x@.len() as int) + amp(x@.skip(x@.len() as int)) =~= x@); } } }
    r
}
pub fn vx_until_semi(x: &str) -> (r: Option<(&str, &str)>) ensures starts_ref(x@) <==> r is Some && ref_name(r->Some_0.0@) {
    let r = vx_split_semi(x);
    proof { assert forall|i: int, j: int| first_c(x@, ';', i) && first_c(x@, ';', j) implies i == j by { lemma_first(x@, i, j); } }
    r
}
//@fn PptxRepair::attempt_xml_repair
//@ opt: strslice
//@ sub: xml.strip_prefix('\u{feff}').unwrap_or(xml) =>> vx_unmarked(xml)
//@ sub: xml.trim() =>> vx_trim(xml)
//@ sub: rest.find('&') =>> vx_next_amp(rest)
//@ sub: after.split_once(';') =>> vx_until_semi(after)
//@ sub: decode_references(&format!("&{};", name)).is_ok() =>> vx_ref_name(name)
//@ loop 0 inv: repaired@ + amp(rest@) == decl(xml@) + amp(xml@)
//@ loop 0 ens: repaired@ + rest@ == decl(xml@) + amp(xml@)
//@ loop 0 dec: rest@.len()
//@ loop 0 begin: let ghost vx_w = repaired@; let ghost vx_s = rest@;
//@ loop 0 end: proof { assert(exists|b: int| amp(vx_s) == #[trigger] amp_to(vx_s, b, rest@) && repaired@ =~= vx_w + (byte_sub(vx_s, 0, b) + (if starts_ref(rest@) { S"&" } else { S"&amp;" }))); let b = choose|b: int| amp(vx_s) == #[trigger] amp_to(vx_s, b, rest@) && repaired@ =~= vx_w + (byte_sub(vx_s, 0, b) + (if starts_ref(rest@) { S"&" } else { S"&amp;" })); assert(repaired@ + amp(rest@) =~= vx_w + amp_to(vx_s, b, rest@)); }
//@ ensures: vx_ret@ == mended(xml@)
//@end
// ---- cutting stretches out of a text
pub open spec fn spanv(v: Seq<Range<usize>>) -> Seq<(int, int)> { v.map_values(|r: Range<usize>| (r.start as int, r.end as int)) }
// what is kept of the text before the k-th stretch, and where the next piece starts
pub open spec fn cut_upto(x: Seq<char>, v: Seq<(int, int)>, k: int) -> (Seq<char>, int) decreases k {
    if k <= 0 { (Seq::<char>::empty(), 0) } else { let (t, f) = cut_upto(x, v, k - 1); if v[k - 1].0 >= f { (t + byte_sub(x, f, v[k - 1].0), v[k - 1].1) } else { (t, f) } }
}
pub open spec fn cut(x: Seq<char>, v: Seq<(int, int)>) -> Seq<char> { let (t, f) = cut_upto(x, v, v.len() as int); t + byte_sub(x, f, blen(x)) }
pub open spec fn inside(x: Seq<char>, v: Seq<(int, int)>) -> bool { forall|i: int| 0 <= i < v.len() ==> onchar(x, (#[trigger] v[i]).0) && onchar(x, v[i].1) && v[i].0 <= v[i].1 }
pub proof fn lemma_onchar(x: Seq<char>, a: int, b: int) requires onchar(x, a), onchar(x, b), a <= b ensures byte_range(x, a, b), b <= blen(x) {
    let i = choose|i: int| at_byte(x, i, a); let j = choose|j: int| at_byte(x, j, b);
    lemma_byte_sub(x, i, j, a, b); lemma_blen_le(x, j);
}
pub proof fn lemma_onchar_ends(x: Seq<char>) ensures onchar(x, 0), onchar(x, blen(x)) { lemma_at_end(x); }
pub open spec fn cut_part(p: Parts, n: Seq<char>, v: Seq<(int, int)>) -> Parts { if v.len() == 0 || !readable(p, n) { p } else { p.insert(n, enc(cut(text_in(p, n), v))) } }
//@fn PptxRepair::remove_spans
//@ opt: strslice
//@ requires: readable(old(self).pk(), path@) ==> inside(text_in(old(self).pk(), path@), spanv(spans@))
//@ loop 0 pre: proof { lemma_onchar_ends(xml@); lemma_blen_ge(xml@); }
//@ loop 0 post: proof { lemma_onchar_ends(xml@); lemma_onchar(xml@, from as int, blen(xml@)); }
//@ loop 0 inv: vx_s0@ == spans@, inside(xml@, spanv(spans@)), onchar(xml@, from as int), from <= blen(xml@), (kept@, from as int) == cut_upto(xml@, spanv(spans@), vx_i0 as int)
//@ loop 0 begin: proof { assert(spanv(spans@)[vx_i0 as int] == (spans@[vx_i0 as int].start as int, spans@[vx_i0 as int].end as int)); if spans@[vx_i0 as int].start >= from { lemma_onchar(xml@, from as int, spans@[vx_i0 as int].start as int); lemma_onchar(xml@, spans@[vx_i0 as int].start as int, spans@[vx_i0 as int].end as int); } }
//@ ensures: final(self).pk() == cut_part(old(self).pk(), path@, spanv(spans@)), final(self).issues == old(self).issues
//@end
// ---- taking relationships out
pub open spec fn goes(r: RelV, target: Seq<char>, id: Option<Seq<char>>) -> bool { r.path == target && (id is None || id->Some_0 == val(r.tag, S"Id")) }
// the places and the ids of the relationships that go
pub open spec fn gone_upto(v: Seq<RelV>, k: int, target: Seq<char>, id: Option<Seq<char>>) -> Seq<(int, int)> decreases k { if k <= 0 { Seq::<(int, int)>::empty() } else if goes(v[k - 1], target, id) { gone_upto(v, k - 1, target, id).push(v[k - 1].tag.span) } else { gone_upto(v, k - 1, target, id) } }
pub open spec fn drops(v: Seq<RelV>, k: int, target: Seq<char>, id: Option<Seq<char>>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && goes(#[trigger] v[i], target, id) && val(v[i].tag, S"Id") == n }
pub proof fn lemma_drops(v: Seq<RelV>, k: int, target: Seq<char>, id: Option<Seq<char>>) requires 0 <= k < v.len() ensures forall|n: Seq<char>| #![trigger drops(v, k + 1, target, id, n)] drops(v, k + 1, target, id, n) <==> drops(v, k, target, id, n) || (goes(v[k], target, id) && val(v[k].tag, S"Id") == n) {
    assert forall|n: Seq<char>| #![trigger drops(v, k + 1, target, id, n)] drops(v, k, target, id, n) || (goes(v[k], target, id) && val(v[k].tag, S"Id") == n) implies drops(v, k + 1, target, id, n) by { if drops(v, k, target, id, n) { let i = choose|i: int| 0 <= i < k && goes(#[trigger] v[i], target, id) && val(v[i].tag, S"Id") == n; assert(goes(v[i], target, id)); } }
}
// the entries of a slide list that name one of them
pub open spec fn entry_goes(t: TagV, v: Seq<RelV>, target: Seq<char>, id: Option<Seq<char>>) -> bool { t.name == S"p:sldId" && has(t, S"r:id") && drops(v, v.len() as int, target, id, val(t, S"r:id")) }
pub open spec fn entries_upto(t: Seq<TagV>, k: int, v: Seq<RelV>, target: Seq<char>, id: Option<Seq<char>>) -> Seq<(int, int)> decreases k { if k <= 0 { Seq::<(int, int)>::empty() } else if entry_goes(t[k - 1], v, target, id) { entries_upto(t, k - 1, v, target, id).push(t[k - 1].span) } else { entries_upto(t, k - 1, v, target, id) } }
// package p without the relationships of part f to a target (and, for the presentation, without their slide list entries)
pub open spec fn unrelated(p: Parts, f: Seq<char>, target: Seq<char>, id: Option<Seq<char>>) -> Parts { cut_part(p, f, gone_upto(rels_of(p, f), rels_of(p, f).len() as int, target, id)) }
pub open spec fn without(p: Parts, f: Seq<char>, target: Seq<char>, id: Option<Seq<char>>) -> Parts {
    let q = unrelated(p, f, target, id);
    if f == RELS() { cut_part(q, PRES(), entries_upto(tags_in(q, PRES()), tags_in(q, PRES()).len() as int, rels_of(p, f), target, id)) } else { q }
}
// the places lie inside their text
pub proof fn lemma_rels_placed(x: Seq<char>, f: Seq<char>, t: Seq<TagV>, k: int) requires all_placed(x, t), 0 <= k <= t.len() ensures forall|i: int| 0 <= i < rels_upto(f, t, k).len() ==> placed(x, (#[trigger] rels_upto(f, t, k)[i]).tag) decreases k {
    if k > 0 { lemma_rels_placed(x, f, t, k - 1); assert(placed(x, t[k - 1])); let a = rels_upto(f, t, k - 1); let b = rels_upto(f, t, k); assert forall|i: int| 0 <= i < b.len() implies placed(x, (#[trigger] b[i]).tag) by { if i < a.len() { assert(b[i] == a[i]); assert(placed(x, a[i].tag)); } } }
}
pub proof fn lemma_gone_inside(x: Seq<char>, v: Seq<RelV>, k: int, target: Seq<char>, id: Option<Seq<char>>) requires 0 <= k <= v.len(), forall|i: int| 0 <= i < v.len() ==> placed(x, (#[trigger] v[i]).tag) ensures inside(x, gone_upto(v, k, target, id)) decreases k {
    if k > 0 { lemma_gone_inside(x, v, k - 1, target, id); assert(placed(x, v[k - 1].tag)); let a = gone_upto(v, k - 1, target, id); let b = gone_upto(v, k, target, id); assert forall|i: int| 0 <= i < b.len() implies onchar(x, (#[trigger] b[i]).0) && onchar(x, b[i].1) && b[i].0 <= b[i].1 by { if i < a.len() { assert(b[i] == a[i]); assert(onchar(x, a[i].0)); } } }
}
pub proof fn lemma_rels_gone(p: Parts, f: Seq<char>, target: Seq<char>, id: Option<Seq<char>>) ensures readable(p, f) ==> inside(text_in(p, f), gone_upto(rels_of(p, f), rels_of(p, f).len() as int, target, id)) {
    if readable(p, f) { let x = text_in(p, f); ax_placed(x); lemma_rels_placed(x, f, tags(x), tags(x).len() as int); lemma_gone_inside(x, rels_of(p, f), rels_of(p, f).len() as int, target, id); }
}
pub proof fn lemma_entries_inside(x: Seq<char>, t: Seq<TagV>, k: int, v: Seq<RelV>, target: Seq<char>, id: Option<Seq<char>>) requires 0 <= k <= t.len(), all_placed(x, t) ensures inside(x, entries_upto(t, k, v, target, id)) decreases k {
    if k > 0 { lemma_entries_inside(x, t, k - 1, v, target, id); assert(placed(x, t[k - 1])); let a = entries_upto(t, k - 1, v, target, id); let b = entries_upto(t, k, v, target, id); assert forall|i: int| 0 <= i < b.len() implies onchar(x, (#[trigger] b[i]).0) && onchar(x, b[i].1) && b[i].0 <= b[i].1 by { if i < a.len() { assert(b[i] == a[i]); assert(onchar(x, a[i].0)); } } }
}
pub open spec fn oseq(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
#[verifier::external_body] pub fn vx_none_or(o: Option<&str>, id: &str) -> (r: bool) ensures r == (o is None || o->Some_0@ == id@) { unimplemented!() }
#[verifier::external_body] pub fn vx_isr(o: Option<&str>, s: &String) -> (r: bool) ensures r == (o is Some && o->Some_0@ == s@) { unimplemented!() }
//@fn PptxRepair::remove_relationships
//@ opt: streq
//@ sub: rel.attr("Id").unwrap_or_default() =>> vx_or_empty(rel.attr("Id"))
//@ sub: rel_id.is_none_or(|wanted| wanted == id) =>> vx_none_or(rel_id, id)
//@ sub: tag.attr("r:id") == Some(id) =>> vx_isr(tag.attr("r:id"), id)
//@ begin: let ghost vx_p = self.pk(); let ghost vx_id = oseq(rel_id);
//@ loop 0 inv: *self == *old(self), vx_p == self.pk(), vx_id == oseq(rel_id), relvs(vx_s0@) == rels_of(vx_p, rels_path@), tyv::<Range<usize>>(spans), tyv::<String>(removed), spanv(spans@) == gone_upto(rels_of(vx_p, rels_path@), vx_i0 as int, target@, vx_id), forall|n: Seq<char>| #[trigger] among(removed@, removed@.len() as int, n) <==> drops(rels_of(vx_p, rels_path@), vx_i0 as int, target@, vx_id, n)
//@ loop 0 begin: let ghost vx_a = spans@; let ghost vx_b = removed@; proof { lemma_drops(rels_of(vx_p, rels_path@), vx_i0 as int, target@, vx_id); assert(relvs(vx_s0@)[vx_i0 as int] == (RelV { tag: tagv(vx_s0@[vx_i0 as int].0), path: vx_s0@[vx_i0 as int].1@ })); }
//@ loop 0 end: proof { if removed@.len() > vx_b.len() { assert(removed@.drop_last() =~= vx_b); lemma_pushed(vx_b, removed@); assert(spanv(spans@) =~= spanv(vx_a).push(rels_of(vx_p, rels_path@)[vx_i0 - 1].tag.span)); } }
//@ loop 0 post: proof { lemma_rels_gone(vx_p, rels_path@, target@, vx_id); }
//@ loop 1 pre: let ghost vx_q = self.pk(); proof { if readable(vx_q, PRES()) { ax_placed(text_in(vx_q, PRES())); lemma_entries_inside(text_in(vx_q, PRES()), tags_in(vx_q, PRES()), tags_in(vx_q, PRES()).len() as int, rels_of(vx_p, rels_path@), target@, vx_id); } }
//@ loop 1 inv: vx_q == self.pk(), self.issues == old(self).issues, tagvs(vx_s1@) == tags_in(vx_q, PRES()), tyv::<Range<usize>>(spans), spanv(spans@) == entries_upto(tags_in(vx_q, PRES()), vx_i1 as int, rels_of(vx_p, rels_path@), target@, vx_id), forall|n: Seq<char>| #[trigger] among(removed@, removed@.len() as int, n) <==> drops(rels_of(vx_p, rels_path@), rels_of(vx_p, rels_path@).len() as int, target@, vx_id, n)
//@ loop 1 begin: let ghost vx_a = spans@; let ghost vx_t = tags_in(vx_q, PRES())[vx_i1 as int]; proof { assert(tagvs(vx_s1@)[vx_i1 as int] == tagv(vx_s1@[vx_i1 as int])); }
//@ loop 1 end: proof { if spans@.len() > vx_a.len() { assert(spanv(spans@) =~= spanv(vx_a).push(vx_t.span)); } }
//@ loop 2 inv: vx_s2@ == removed@, tagv(tag) == vx_t, !vx_r2 ==> forall|i: int| 0 <= i < vx_i2 ==> !(has(vx_t, S"r:id") && val(vx_t, S"r:id") == (#[trigger] removed@[i])@), vx_r2 ==> 0 <= vx_i2 < removed@.len() && has(vx_t, S"r:id") && val(vx_t, S"r:id") == removed@[vx_i2 as int]@
//@ loop 2 post: assert(vx_r2 <==> has(vx_t, S"r:id") && among(removed@, removed@.len() as int, val(vx_t, S"r:id")));
//@ ensures: final(self).pk() == without(old(self).pk(), rels_path@, target@, oseq(rel_id)), final(self).issues == old(self).issues, vx_ret is Ok
//@end
//@fn PptxRepair::repair_broken_relationship
//@ ensures: final(self).pk() == without(old(self).pk(), source@, target@, Some(rel_id@)), final(self).issues == old(self).issues, vx_ret is Ok
//@end
//@fn PptxRepair::repair_orphan_slide
//@ ensures: final(self).pk() == without(old(self).pk(), RELS(), slide_path@, None), final(self).issues == old(self).issues, vx_ret is Ok
//@end
// ---- putting an element into a text
pub open spec fn stemmed(s: Seq<char>, e: Seq<char>) -> Seq<char> { if has_suffix(s, e) { s.take(s.len() - e.len()) } else { s } }
#[verifier::external_body] pub fn vx_stem<'a>(s: &'a str, e: &str) -> (r: &'a str) ensures r@ == stemmed(s@, e@) { s.strip_suffix(e).unwrap_or(s) }
#[verifier::external_body] pub fn vx_split_at(s: &str, at: usize) -> (r: (&str, &str)) requires byte_range(s@, 0, at as int), byte_range(s@, at as int, blen(s@)) ensures r.0@ == byte_sub(s@, 0, at as int), r.1@ == byte_sub(s@, at as int, blen(s@)) { s.split_at(at) }
#[verifier::external_body] pub fn vx_scan(x: &str) -> (r: Result<Vec<XmlTag>>) ensures r is Ok ==> tagvs(r->Ok_0@) == tags(x@), r is Ok <==> wf(x@) { unimplemented!() }
// the first element of a name
pub open spec fn first_named(v: Seq<TagV>, n: Seq<char>, i: int) -> bool { 0 <= i < v.len() && v[i].name == n && forall|j: int| 0 <= j < i ==> (#[trigger] v[j]).name != n }
pub open spec fn filled(x: Seq<char>, t: TagV, n: Seq<char>, c: Seq<char>) -> Seq<char> {
    if t.inner.1 < t.span.1 { byte_sub(x, 0, t.inner.1) + c + S"\n" + byte_sub(x, t.inner.1, blen(x)) }
    else { stemmed(byte_sub(x, 0, t.inner.1), S"/>") + S">" + c + S"</" + n + S">" + byte_sub(x, t.inner.1, blen(x)) }
}
pub fn vx_find_named(tags: Vec<XmlTag>, name: &str) -> (r: Option<XmlTag>) ensures r is None ==> forall|i: int| 0 <= i < tags@.len() ==> (#[trigger] tagvs(tags@)[i]).name != name@, r is Some ==> exists|i: int| #[trigger] first_named(tagvs(tags@), name@, i) && tagvs(tags@)[i] == tagv(r->Some_0) {
    let mut i: usize = 0;
    while i < tags.len() invariant i <= tags@.len(), forall|j: int| 0 <= j < i ==> (#[trigger] tagvs(tags@)[j]).name != name@ decreases tags@.len() - i {
        if tags[i].name.vx_eq(name) { let t = vx_move_out(&tags, i); proof { assert(first_named(tagvs(tags@), name@, i as int)); } return Some(t); }
        i += 1;
    }
    None
}
//@fn insert_last
//@ sub: scan_tags(xml).map_err(PptxError::InvalidXml)? =>> vx_scan(xml)?
//@ sub: tags.into_iter().find(|tag| tag.name == name) =>> vx_find_named(tags, name)
//@ sub: xml.split_at(tag.inner.end) =>> vx_split_tag(xml, &tag)
//@ sub: before.strip_suffix("/>").unwrap_or(before) =>> vx_stem(before, "/>")
//@ ensures: vx_ret is Ok ==> wf(xml@) && exists|i: int| #[trigger] first_named(tags(xml@), name@, i) && vx_ret->Ok_0@ == filled(xml@, tags(xml@)[i], name@, child@), vx_ret is Err ==> !wf(xml@) || forall|i: int| 0 <= i < tags(xml@).len() ==> (#[trigger] tags(xml@)[i]).name != name@
//@end
pub fn vx_split_tag<'a>(x: &'a str, t: &XmlTag) -> (r: (&'a str, &'a str)) requires exists|i: int| 0 <= i < tags(x@).len() && #[trigger] tags(x@)[i] == tagv(*t) ensures r.0@ == byte_sub(x@, 0, t.inner.end as int), r.1@ == byte_sub(x@, t.inner.end as int, blen(x@)) {
    proof { ax_placed(x@); lemma_onchar_ends(x@); let i = choose|i: int| 0 <= i < tags(x@).len() && #[trigger] tags(x@)[i] == tagv(*t); assert(placed(x@, tags(x@)[i])); lemma_onchar(x@, 0, t.inner.end as int); lemma_onchar(x@, t.inner.end as int, blen(x@)); }
    vx_split_at(x, t.inner.end)
}
// ---- numbers
pub uninterp spec fn num32(s: Seq<char>) -> Option<u32>;
#[verifier::external_body] pub fn vx_num32(s: &str) -> (r: Result<u32>) ensures r is Ok <==> num32(s@) is Some, r is Ok ==> r->Ok_0 == num32(s@)->Some_0 { unimplemented!() }
#[verifier::external_body] pub fn vx_rid_num(s: &str) -> (r: Option<Result<u32>>) ensures r is Some && r->Some_0 is Ok <==> rid_num(s@) is Some, r is Some && r->Some_0 is Ok ==> r->Some_0->Ok_0 == rid_num(s@)->Some_0 { unimplemented!() }
// the number of an id rId…
pub uninterp spec fn rid_num(s: Seq<char>) -> Option<u32>;
pub axiom fn ax_rid(n: u32) ensures rid_num(S"rId" + dec(n as nat)) == Some(n);
pub uninterp spec fn frag_tags(x: Seq<char>) -> Seq<TagV>;
#[verifier::external_body] pub fn vx_frag_tags(x: &str) -> (r: Vec<XmlTag>) ensures tagvs(r@) == frag_tags(x@) { unimplemented!() }
pub open spec fn takes_rid(t: TagV, n: int) -> bool { t.name == S"Relationship" && has(t, S"Id") && rid_num(val(t, S"Id")) is Some && rid_num(val(t, S"Id"))->Some_0 > n }
pub open spec fn takes_slide_id(t: TagV, n: int) -> bool { t.name == S"p:sldId" && has(t, S"id") && num32(val(t, S"id")) is Some && num32(val(t, S"id"))->Some_0 > n }
#[verifier::external_body] pub fn vx_max(a: u32, b: u32) -> (r: u32) ensures r == (if a >= b { a } else { b }) { a.max(b) }
//@fn PptxRepair::find_max_rel_id
//@ opt: streq
//@ sub: scan_tags(xml).unwrap_or_default() =>> vx_tags(xml)
//@ sub: id.strip_prefix("rId").map(|id| id.parse::<u32>()) =>> vx_rid_num(id)
//@ sub: max_id.max(id) =>> vx_max(max_id, id)
//@ loop 0 inv: tagvs(vx_s0@) == tags(xml@), forall|i: int| 0 <= i < vx_i0 ==> !takes_rid(#[trigger] tags(xml@)[i], max_id as int)
//@ loop 0 begin: proof { assert(tagvs(vx_s0@)[vx_i0 as int] == tagv(vx_s0@[vx_i0 as int])); }
//@ ensures: forall|i: int| 0 <= i < tags(xml@).len() ==> !takes_rid(#[trigger] tags(xml@)[i], vx_ret as int)
//@end
//@fn PptxRepair::find_max_slide_id
//@ opt: streq
//@ sub: scan_fragment(xml, &["p", "r"]).unwrap_or_default() =>> vx_frag_tags(xml)
//@ sub: id.parse::<u32>() =>> vx_num32(id)
//@ sub: max_id.max(id) =>> vx_max(max_id, id)
//@ loop 0 inv: tagvs(vx_s0@) == frag_tags(xml@), forall|i: int| 0 <= i < vx_i0 ==> !takes_slide_id(#[trigger] frag_tags(xml@)[i], max_id as int)
//@ loop 0 begin: proof { assert(tagvs(vx_s0@)[vx_i0 as int] == tagv(vx_s0@[vx_i0 as int])); }
//@ ensures: forall|i: int| 0 <= i < frag_tags(xml@).len() ==> !takes_slide_id(#[trigger] frag_tags(xml@)[i], vx_ret as int)
//@end
// ---- adding a slide to the list
pub uninterp spec fn esc(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn escape_xml(s: &str) -> (r: String) ensures r@ == esc(s@) { unimplemented!() }
pub open spec fn entry(n: int, rid: Seq<char>) -> Seq<char> { S"<p:sldId id=\"" + dec(n as nat) + S"\" r:id=\"" + esc(rid) + S"\"/>" }
pub open spec fn filled_first(x: Seq<char>, n: Seq<char>, c: Seq<char>, y: Seq<char>) -> bool { exists|i: int| #[trigger] first_named(tags(x), n, i) && y == filled(x, tags(x)[i], n, c) }
pub open spec fn spliced(x: Seq<char>, c: Seq<char>, at: int) -> Seq<char> { byte_sub(x, 0, at) + S"\n<p:sldIdLst>" + c + S"</p:sldIdLst>" + byte_sub(x, at, blen(x)) }
// the entry is put last into the list, or into a list of its own between two characters
pub open spec fn adds(x: Seq<char>, c: Seq<char>, y: Seq<char>) -> bool { filled_first(x, S"p:sldIdLst", c, y) || exists|at: int| onchar(x, at) && y == #[trigger] spliced(x, c, at) }
pub open spec fn free_id(x: Seq<char>, n: int) -> bool { 256 <= n < 0x8000_0000 && forall|i: int| 0 <= i < frag_tags(x).len() ==> !takes_slide_id(#[trigger] frag_tags(x)[i], n - 1) }
pub open spec fn slide_added(p: Parts, q: Parts, rid: Seq<char>) -> bool { readable(p, PRES()) && exists|n: int, y: Seq<char>| free_id(text_in(p, PRES()), n) && #[trigger] adds(text_in(p, PRES()), entry(n, rid), y) && q == p.insert(PRES(), enc(y)) }
//@fn PptxRepair::add_slide_to_presentation
//@ opt: strslice
//@ sub: self.find_max_slide_id(xml).max(255).saturating_add(1) =>> vx_max(self.find_max_slide_id(xml), 255).saturating_add(1)
//@ loop 0 inv: tagvs(vx_s0@) == tags(xml@), at is Some ==> onchar(xml@, at->Some_0 as int)
//@ loop 0 begin: proof { ax_placed(xml@); assert(tagvs(vx_s0@)[vx_i0 as int] == tagv(vx_s0@[vx_i0 as int])); assert(placed(xml@, tags(xml@)[vx_i0 as int])); }
//@ loop 0 post: proof { lemma_onchar_ends(xml@); if at is Some { lemma_onchar_le(xml@, at->Some_0 as int); lemma_onchar(xml@, 0, at->Some_0 as int); lemma_onchar(xml@, at->Some_0 as int, blen(xml@)); assert(spliced(xml@, new_entry@, at->Some_0 as int) == spliced(xml@, new_entry@, at->Some_0 as int) && spliced(xml@, new_entry@, at->Some_0 as int).len() >= 0); } }
//@ end: proof { if vx_r is Ok { let x = text_in(old(self).pk(), PRES()); let y = txt(self.pk()[PRES()]); assert(new_entry@ =~= entry(new_slide_id as int, rel_id@)); assert(adds(x, entry(new_slide_id as int, rel_id@), repaired@)); assert(self.pk() =~= old(self).pk().insert(PRES(), enc(repaired@))); } }
//@ ensures: vx_ret is Err ==> *final(self) == *old(self), final(self).issues == old(self).issues, vx_ret is Ok ==> slide_added(old(self).pk(), final(self).pk(), rel_id@)
//@end
pub proof fn lemma_onchar_le(x: Seq<char>, a: int) requires onchar(x, a) ensures 0 <= a <= blen(x) { let i = choose|i: int| at_byte(x, i, a); lemma_blen_le(x, i); lemma_blen_ge(x.take(i)); }
// ---- listing a slide
pub open spec fn rel_entry(n: int, target: Seq<char>) -> Seq<char> { S"  <Relationship Id=\"" + (S"rId" + dec(n as nat)) + S"\" Type=\"" + slide_uri() + S"\" Target=\"" + esc(target) + S"\"/>" }
pub uninterp spec fn slide_uri() -> Seq<char>;
#[verifier::external_body] pub fn vx_slide_uri() -> (r: &'static str) ensures r@ == slide_uri() { unimplemented!() }
pub open spec fn under(s: Seq<char>, h: Seq<char>) -> Seq<char> { if has_prefix(s, h) { s.skip(h.len() as int) } else { s } }
#[verifier::external_body] pub fn vx_under<'a>(s: &'a str, h: &str) -> (r: &'a str) ensures r@ == under(s@, h@) { s.strip_prefix(h).unwrap_or(s) }
// the number of the relationship id is free
pub open spec fn free_rid(x: Seq<char>, n: int) -> bool { 1 <= n <= u32::MAX && forall|i: int| 0 <= i < tags(x).len() ==> !takes_rid(#[trigger] tags(x)[i], n - 1) }
// an id of a free number is no id of the relationships
pub proof fn lemma_free_rid(x: Seq<char>, n: int) requires free_rid(x, n) ensures forall|i: int| 0 <= i < tags(x).len() && (#[trigger] tags(x)[i]).name == S"Relationship" && has(tags(x)[i], S"Id") ==> val(tags(x)[i], S"Id") != S"rId" + dec(n as nat) {
    ax_rid(n as u32);
    assert forall|i: int| 0 <= i < tags(x).len() && (#[trigger] tags(x)[i]).name == S"Relationship" && has(tags(x)[i], S"Id") implies val(tags(x)[i], S"Id") != S"rId" + dec(n as nat) by { assert(!takes_rid(tags(x)[i], n - 1)); }
}
pub open spec fn has_lead(v: Seq<Pair>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == n }
// the slide's relationship, or a new one, is put into the slide list
pub open spec fn listed_now(p: Parts, q: Parts, n: Seq<char>) -> bool {
    if has_lead(linked(p), n) { exists|i: int| 0 <= i < linked(p).len() && (#[trigger] linked(p)[i]).1 == n && slide_added(p, q, linked(p)[i].0) }
    else { readable(p, RELS()) && exists|k: int, y: Seq<char>, m: Parts| free_rid(text_in(p, RELS()), k) && #[trigger] filled_first(text_in(p, RELS()), S"Relationships", rel_entry(k, under(n, S"ppt/")), y) && #[trigger] slide_added(p, m, S"rId" + dec(k as nat)) && q == m.insert(RELS(), enc(y)) }
}
//@fn PptxRepair::repair_missing_slide_reference
//@ opt: streq
//@ sub: RelationshipType::Slide.uri() =>> vx_slide_uri()
//@ sub: slide_path.strip_prefix("ppt/").unwrap_or(slide_path) =>> vx_under(slide_path, "ppt/")
//@ sub: self.find_max_rel_id(rels).checked_add(1) =>> vx_next32(self.find_max_rel_id(rels))
//@ begin: let ghost vx_p = self.pk();
//@ end: proof { if vx_r is Ok { let x = text_in(vx_p, RELS()); assert(exists|k: u32| new_id@ == S"rId" + #[trigger] dec(k as nat) && free_rid(x, k as int)); let k = choose|k: u32| new_id@ == S"rId" + #[trigger] dec(k as nat) && free_rid(x, k as int); assert(new_rel@ =~= rel_entry(k as int, under(slide_path@, S"ppt/"))); assert(filled_first(x, S"Relationships", rel_entry(k as int, under(slide_path@, S"ppt/")), rels@)); } }
//@ loop 0 inv: *self == *old(self), vx_p == self.pk(), pairs(vx_s0@) == linked(vx_p), forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] linked(vx_p)[i]).1 != slide_path@
//@ loop 0 begin: proof { assert(pairs(vx_s0@)[vx_i0 as int] == (vx_s0@[vx_i0 as int].0@, vx_s0@[vx_i0 as int].1@)); assert(linked(vx_p)[vx_i0 as int].1 == vx_s0@[vx_i0 as int].1@); }
//@ ensures: vx_ret is Err ==> *final(self) == *old(self), final(self).issues == old(self).issues, vx_ret is Ok ==> listed_now(old(self).pk(), final(self).pk(), slide_path@)
//@end
pub fn vx_next32(n: u32) -> (r: Option<u32>) ensures r is None <==> n == u32::MAX, r is Some ==> r->Some_0 == n + 1 { if n == u32::MAX { None } else { Some(n + 1) } }
// ---- the other repairs
//@fn PptxRepair::infer_content_type
//@ ensures: slide_name(path@) && !has_sub(path@, S"slideLayout") && !has_sub(path@, S"slideMaster") && !has_sub(path@, S"notesSlide") ==> vx_ret@ == S"application/vnd.openxmlformats-officedocument.presentationml.slide+xml"
//@end
pub open spec fn new_type(n: Seq<char>, ct: Seq<char>) -> Seq<char> { S"  <Override PartName=\"/" + esc(n) + S"\" ContentType=\"" + ct + S"\"/>" }
pub open spec fn typed_now(p: Parts, q: Parts, n: Seq<char>) -> bool { readable(p, TYPES()) && exists|ct: Seq<char>, y: Seq<char>| #[trigger] filled_first(text_in(p, TYPES()), S"Types", new_type(n, ct), y) && q == p.insert(TYPES(), enc(y)) }
//@fn PptxRepair::repair_invalid_content_type
//@ end: proof { if vx_r is Ok { let x = text_in(old(self).pk(), TYPES()); assert(new_override@ =~= new_type(path@, content_type@)); assert(filled_first(x, S"Types", new_type(path@, content_type@), repaired@)); } }
//@ ensures: vx_ret is Err ==> *final(self) == *old(self), final(self).issues == old(self).issues, vx_ret is Ok ==> typed_now(old(self).pk(), final(self).pk(), path@)
//@end
impl PptxRepair {
    #[verifier::external_body] pub fn generate_content_types(&self) -> String { unimplemented!() }
    #[verifier::external_body] pub fn generate_package_rels(&self) -> String { unimplemented!() }
    #[verifier::external_body] pub fn generate_presentation_xml(&self) -> String { unimplemented!() }
    #[verifier::external_body] pub fn generate_presentation_rels(&self) -> String { unimplemented!() }
    // never called: no check reports these issues
    #[verifier::external_body] pub fn repair_missing_namespace(&mut self, path: &str, namespace: &str) -> Result<()> { unimplemented!() }
    #[verifier::external_body] pub fn repair_empty_element(&mut self, path: &str, element: &str) -> Result<()> { unimplemented!() }
}
pub open spec fn required(n: Seq<char>) -> bool { n == TYPES() || n == S"_rels/.rels" || n == PRES() || n == RELS() }
//@fn PptxRepair::repair_missing_part
//@ opt: streq
//@ end: proof { if vx_r is Ok { assert(self.pk() =~= old(self).pk().insert(path@, self.pk()[path@])); } }
//@ ensures: vx_ret is Ok <==> required(path@), vx_ret is Err ==> *final(self) == *old(self), final(self).issues == old(self).issues, vx_ret is Ok ==> final(self).pk() == old(self).pk().insert(path@, final(self).pk()[path@]) && is_text(final(self).pk()[path@])
//@end
//@fn PptxRepair::repair_invalid_xml
//@ sub: validate_well_formed_xml(&repaired)?; =>> vx_wf(&repaired)?;
//@ ensures: final(self).issues == old(self).issues, vx_ret is Ok <==> readable(old(self).pk(), path@) && wf(mended(text_in(old(self).pk(), path@))), vx_ret is Err ==> *final(self) == *old(self), vx_ret is Ok ==> final(self).pk() == old(self).pk().insert(path@, enc(mended(text_in(old(self).pk(), path@))))
//@end
// the parts a repair may change
pub open spec fn touches(e: IssV, n: Seq<char>) -> bool {
    match e {
        IssV::Missing(p, _) => n == p, IssV::Invalid(p, _) => n == p, IssV::Broken(s, _, _) => n == s || (s == RELS() && n == PRES()),
        IssV::Unlisted(_) => n == RELS() || n == PRES(), IssV::Orphan(_) => n == RELS() || n == PRES(), IssV::Untyped(_) => n == TYPES(), IssV::Other => true,
    }
}
// what each repair does to the package
pub open spec fn mends(p: Parts, q: Parts, e: IssV) -> bool {
    match e {
        IssV::Missing(n, _) => q == p.insert(n, q[n]), IssV::Invalid(n, _) => readable(p, n) && wf(mended(text_in(p, n))) && q == p.insert(n, enc(mended(text_in(p, n)))),
        IssV::Broken(s, t, id) => q == without(p, s, t, Some(id)), IssV::Orphan(n) => q == without(p, RELS(), n, None),
        IssV::Unlisted(n) => listed_now(p, q, n), IssV::Untyped(n) => typed_now(p, q, n), IssV::Other => true,
    }
}
pub open spec fn kept(p: Parts, q: Parts, n: Seq<char>) -> bool { (q.dom().contains(n) <==> p.dom().contains(n)) && (p.dom().contains(n) ==> q[n] == p[n]) }
pub open spec fn fresh(e: IssV, n: Seq<char>) -> bool { e is Missing && e->Missing_0 == n }
// nothing else changes, no part is lost, no part but a missing one is added
pub open spec fn frames(p: Parts, q: Parts, e: IssV) -> bool { &&& forall|n: Seq<char>| !touches(e, n) ==> #[trigger] kept(p, q, n) &&& forall|n: Seq<char>| #[trigger] p.dom().contains(n) ==> q.dom().contains(n) &&& forall|n: Seq<char>| #[trigger] q.dom().contains(n) && !p.dom().contains(n) ==> fresh(e, n) }
pub proof fn lemma_frames(p: Parts, q: Parts, e: IssV) requires mends(p, q, e), !(e is Other) ensures frames(p, q, e) {}
//@fn PptxRepair::repair_issue
//@ end: proof { if vx_r is Ok && !(issv(*issue) is Other) { lemma_frames(old(self).pk(), self.pk(), issv(*issue)); } }
//@ ensures: !(issv(*issue) is Other) ==> (vx_ret is Err ==> final(self).pk() == old(self).pk()) && (vx_ret is Ok ==> mends(old(self).pk(), final(self).pk(), issv(*issue)) && frames(old(self).pk(), final(self).pk(), issv(*issue)))
//@end
// ---- all repairs
#[verifier::external_body] pub fn vx_clone_issue(i: &RepairIssue) -> (r: RepairIssue) ensures r == *i { unimplemented!() }
#[verifier::external_body] pub fn vx_has_issue(v: &Vec<RepairIssue>, i: &RepairIssue) -> (r: bool) ensures r ==> says(v@, issv(*i)), !r && !(issv(*i) is Other) ==> !says(v@, issv(*i)) { unimplemented!() }
pub open spec fn isv(v: Seq<RepairIssue>) -> Seq<IssV> { v.map_values(|i: RepairIssue| issv(i)) }
pub open spec fn cnt(s: Seq<IssV>, e: IssV) -> int decreases s.len() { if s.len() == 0 { 0 } else { cnt(s.drop_last(), e) + (if s.last() == e { 1int } else { 0int }) } }
pub proof fn lemma_cnt_push(v: Seq<RepairIssue>) ensures forall|x: RepairIssue, e: IssV| #[trigger] cnt(isv(v.push(x)), e) == cnt(isv(v), e) + (if issv(x) == e { 1int } else { 0int }) { assert forall|x: RepairIssue, e: IssV| #[trigger] cnt(isv(v.push(x)), e) == cnt(isv(v), e) + (if issv(x) == e { 1int } else { 0int }) by { assert(isv(v.push(x)).drop_last() =~= isv(v)); assert(isv(v.push(x)).last() == issv(x)); } }
pub proof fn lemma_cnt_take(s: Seq<IssV>, k: int) requires 0 <= k < s.len() ensures forall|e: IssV| #[trigger] cnt(s.take(k + 1), e) == cnt(s.take(k), e) + (if s[k] == e { 1int } else { 0int }) { assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1).last() == s[k]); }
pub open spec fn split3(s: Seq<IssV>, a: Seq<RepairIssue>, b: Seq<RepairIssue>, c: Seq<RepairIssue>) -> bool { forall|e: IssV| #[trigger] cnt(s, e) == cnt(isv(a), e) + cnt(isv(b), e) + cnt(isv(c), e) }
pub open spec fn any_touches(s: Seq<IssV>, k: int, n: Seq<char>) -> bool { exists|j: int| 0 <= j < k && touches(#[trigger] s[j], n) }
pub open spec fn any_fresh(s: Seq<IssV>, k: int, n: Seq<char>) -> bool { exists|j: int| 0 <= j < k && fresh(#[trigger] s[j], n) }
pub open spec fn framed(p: Parts, q: Parts, s: Seq<IssV>, k: int) -> bool { &&& forall|n: Seq<char>| !any_touches(s, k, n) ==> #[trigger] kept(p, q, n) &&& forall|n: Seq<char>| #[trigger] p.dom().contains(n) ==> q.dom().contains(n) &&& forall|n: Seq<char>| #[trigger] q.dom().contains(n) && !p.dom().contains(n) ==> any_fresh(s, k, n) }
pub proof fn lemma_framed(p: Parts, q: Parts, q2: Parts, s: Seq<IssV>, k: int) requires 0 <= k < s.len(), framed(p, q, s, k), q2 == q || frames(q, q2, s[k]) ensures framed(p, q2, s, k + 1) {
    assert forall|n: Seq<char>| !any_touches(s, k + 1, n) implies #[trigger] kept(p, q2, n) by {
        if any_touches(s, k, n) { let j = choose|j: int| 0 <= j < k && touches(#[trigger] s[j], n); assert(touches(s[j], n)); }
        assert(!touches(s[k], n)); assert(kept(p, q, n)); assert(kept(q, q2, n) || q2 == q);
    }
    assert forall|n: Seq<char>| #[trigger] p.dom().contains(n) implies q2.dom().contains(n) by { assert(q.dom().contains(n)); }
    assert forall|n: Seq<char>| #[trigger] q2.dom().contains(n) && !p.dom().contains(n) implies any_fresh(s, k + 1, n) by {
        if q.dom().contains(n) { assert(any_fresh(s, k, n)); let j = choose|j: int| 0 <= j < k && fresh(#[trigger] s[j], n); assert(fresh(s[j], n)); } else { assert(fresh(s[k], n)); }
    }
}
pub open spec fn clean(p: Parts) -> bool { forall|e: IssV| !#[trigger] wrong(p, e) }
// of the whole repair: what is found; what may change; nothing lost; only missing parts added
pub open spec fn only_wrong(p: Parts, q: Parts) -> bool { &&& forall|n: Seq<char>| (forall|e: IssV| #[trigger] wrong(p, e) ==> !touches(e, n)) ==> #[trigger] kept(p, q, n) &&& forall|n: Seq<char>| #[trigger] p.dom().contains(n) ==> q.dom().contains(n) &&& forall|n: Seq<char>| #[trigger] q.dom().contains(n) && !p.dom().contains(n) ==> required(n) }
pub proof fn lemma_isv(v: Seq<RepairIssue>) ensures forall|i: int| 0 <= i < v.len() ==> says(v, #[trigger] isv(v)[i]) { assert forall|i: int| 0 <= i < v.len() implies says(v, #[trigger] isv(v)[i]) by { assert(issv(v[i]) == isv(v)[i]); } }
pub proof fn lemma_only_wrong(p: Parts, q: Parts, v: Seq<RepairIssue>) requires forall|e: IssV| #[trigger] says(v, e) ==> wrong(p, e), framed(p, q, isv(v), v.len() as int) ensures only_wrong(p, q) {
    lemma_isv(v); let s = isv(v);
    assert forall|n: Seq<char>| (forall|e: IssV| #[trigger] wrong(p, e) ==> !touches(e, n)) implies #[trigger] kept(p, q, n) by { if any_touches(s, v.len() as int, n) { let j = choose|j: int| 0 <= j < v.len() && touches(#[trigger] s[j], n); assert(says(v, s[j])); assert(wrong(p, s[j])); } }
    assert forall|n: Seq<char>| #[trigger] q.dom().contains(n) && !p.dom().contains(n) implies required(n) by { assert(any_fresh(s, v.len() as int, n)); let j = choose|j: int| 0 <= j < v.len() && fresh(#[trigger] s[j], n); assert(says(v, s[j])); assert(wrong(p, s[j])); }
}
//@fn PptxRepair::repair
//@ sub: &result.issues_found.clone() =>> &vx_clone_issues(&result.issues_found)
//@ sub: issue.clone() =>> vx_clone_issue(issue)
//@ sub: remaining_issues.contains(&issue) =>> vx_has_issue(&remaining_issues, &issue)
//@ begin: let ghost vx_p = self.pk();
//@ loop 0 pre: let ghost vx_f = result.issues_found@; let ghost vx_w = isv(result.issues_found@); proof { assert(vx_w.take(0) =~= Seq::<IssV>::empty()); assert(isv(attempted@) =~= Seq::<IssV>::empty()); assert(isv(result.issues_repaired@) =~= Seq::<IssV>::empty()); assert(isv(result.issues_unrepaired@) =~= Seq::<IssV>::empty()); if result.issues_found@.len() > 0 { assert(says(vx_f, issv(vx_f[0]))); } }
//@ loop 0 inv: tyv::<RepairIssue>(attempted), vx_s0@ == vx_f, result.issues_found@ == vx_f, vx_w == isv(vx_f), result.issues_repaired@.len() == 0, forall|e: IssV| #![trigger says(vx_f, e)] #![trigger wrong(vx_p, e)] says(vx_f, e) <==> wrong(vx_p, e), split3(vx_w.take(vx_i0 as int), attempted@, result.issues_unrepaired@, result.issues_repaired@), framed(vx_p, self.pk(), vx_w, vx_i0 as int), forall|i: int| 0 <= i < attempted@.len() ==> !(issv(#[trigger] attempted@[i]) is Other)
//@ loop 0 begin: let ghost vx_q = self.pk(); proof { lemma_isv(vx_f); assert(says(vx_f, vx_w[vx_i0 as int])); assert(vx_w[vx_i0 as int] == issv(vx_f[vx_i0 as int])); lemma_cnt_take(vx_w, vx_i0 as int); lemma_cnt_push(attempted@); lemma_cnt_push(result.issues_unrepaired@); }
//@ loop 0 end: proof { lemma_framed(vx_p, vx_q, self.pk(), vx_w, vx_i0 - 1); }
//@ loop 0 post: proof { assert(vx_w.take(vx_i0 as int) =~= vx_w); lemma_only_wrong(vx_p, self.pk(), vx_f); }
//@ loop 1 inv: result.issues_found@ == vx_f, self.pk() == vx_g, result.is_valid == clean(vx_g), forall|e: IssV| #![trigger says(remaining_issues@, e)] #![trigger wrong(vx_g, e)] says(remaining_issues@, e) <==> wrong(vx_g, e), forall|i: int| 0 <= i < vx_s1@.len() ==> !(issv(#[trigger] vx_s1@[i]) is Other), forall|e: IssV| #[trigger] says(result.issues_repaired@, e) ==> !wrong(vx_g, e), split3(vx_w, vx_s1@.skip(vx_i1 as int), result.issues_unrepaired@, result.issues_repaired@)
//@ loop 1 pre: let ghost vx_g = self.pk(); let ghost vx_f = result.issues_found@; let ghost vx_w = isv(result.issues_found@); proof { if remaining_issues@.len() > 0 { assert(says(remaining_issues@, issv(remaining_issues@[0]))); } assert(attempted@.skip(0) =~= attempted@); assert(isv(result.issues_repaired@) =~= Seq::<IssV>::empty()); }
//@ loop 1 post: proof { assert(isv(vx_s1@.skip(vx_i1 as int)) =~= Seq::<IssV>::empty()); }
//@ loop 1 begin: proof { lemma_push(result.issues_repaired@); lemma_cnt_skip(vx_s1@, vx_i1 as int); lemma_cnt_push(result.issues_repaired@); lemma_cnt_push(result.issues_unrepaired@); }
//@ ensures: forall|e: IssV| #![trigger says(vx_ret.issues_found@, e)] #![trigger wrong(old(self).pk(), e)] says(vx_ret.issues_found@, e) <==> wrong(old(self).pk(), e), clean(old(self).pk()) ==> final(self).pk() == old(self).pk() && vx_ret.is_valid, vx_ret.is_valid <==> clean(final(self).pk()), only_wrong(old(self).pk(), final(self).pk()), forall|e: IssV| #[trigger] says(vx_ret.issues_repaired@, e) ==> !wrong(final(self).pk(), e), forall|e: IssV| #[trigger] cnt(isv(vx_ret.issues_found@), e) == cnt(isv(vx_ret.issues_repaired@), e) + cnt(isv(vx_ret.issues_unrepaired@), e)
//@end
pub proof fn lemma_cnt_skip(v: Seq<RepairIssue>, k: int) requires 0 <= k < v.len() ensures forall|e: IssV| #[trigger] cnt(isv(v.skip(k)), e) == cnt(isv(v.skip(k + 1)), e) + (if issv(v[k]) == e { 1int } else { 0int }) {
    assert forall|e: IssV| #[trigger] cnt(isv(v.skip(k)), e) == cnt(isv(v.skip(k + 1)), e) + (if issv(v[k]) == e { 1int } else { 0int }) by {
        let a = isv(v.skip(k)); assert(a.skip(1) =~= isv(v.skip(k + 1))); assert(a[0] == issv(v[k])); lemma_cnt_first(a, e);
    }
}
pub proof fn lemma_cnt_first(s: Seq<IssV>, e: IssV) requires s.len() > 0 ensures cnt(s, e) == cnt(s.skip(1), e) + (if s[0] == e { 1int } else { 0int }) decreases s.len() {
    if s.len() > 1 { lemma_cnt_first(s.drop_last(), e); assert(s.skip(1).drop_last() =~= s.drop_last().skip(1)); assert(s.skip(1).last() == s.last()); assert(s.drop_last()[0] == s[0]); }
    else { assert(s.drop_last() =~= Seq::<IssV>::empty()); assert(s.skip(1) =~= Seq::<IssV>::empty()); assert(s.last() == s[0]); assert(cnt(s.drop_last(), e) == 0); assert(cnt(s.skip(1), e) == 0); }
}
//%extras
} // verus!
fn main() {}
