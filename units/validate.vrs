//@include prelude.rs
verus! {
//@lits
//@opt opaquelits, forvec, optmatch, forpath
//@known PackageContext::from_archive, PackageContext::read_part, PackageContext::has_part, PackageContext::relationships, PackageContext::relationship_parts, validate_presentation_rel_order, scan_tags, XmlTag::attr
// ------------------------------------------------- stand-ins (assumed by their documented meaning)
pub trait Read {}
pub trait Seek {}
pub struct VxErr { pub c: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(R)] pub struct ZipArchive<R> { c: std::marker::PhantomData<R> }
// the archive as far as a check sees it: its entries, what each says as text (nothing where it is no text), how long each is that can be read
pub struct Pk { pub names: Set<Seq<char>>, pub texts: Map<Seq<char>, Seq<char>>, pub sizes: Map<Seq<char>, int>, pub rels: Map<Seq<char>, Seq<RelV>> }
pub struct RelV { pub id: Seq<char>, pub target: Seq<char>, pub resolved: Seq<char>, pub mode: Seq<char> }
impl<R> ZipArchive<R> { pub uninterp spec fn view(&self) -> Pk; }
//@type core/package_validation/report.rs|ValidationSeverity derive Clone,Copy,PartialEq,Eq,Structural
//@type core/package_validation/report.rs|ValidationCategory derive Clone,Copy,PartialEq,Eq,Structural
//@type core/package_validation/report.rs|PackageValidationIssue
//@type core/package_validation/report.rs|PackageValidationReport
//@type core/package_validation/context.rs|Relationship
pub struct PackageContext { pub names: Vec<String>, pub rels: Vec<(String, Vec<Relationship>)> }
// ------------------------------------------------- what a report says
pub struct Ev { pub cat: ValidationCategory, pub sev: ValidationSeverity, pub path: Option<Seq<char>> }
pub open spec fn osv(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn orv(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn ev(i: PackageValidationIssue) -> Ev { Ev { cat: i.category, sev: i.severity, path: osv(i.path) } }
pub open spec fn says(r: PackageValidationReport, e: Ev) -> bool { exists|i: int| 0 <= i < r.issues@.len() && ev(#[trigger] r.issues@[i]) == e }
pub open spec fn er(c: ValidationCategory, p: Seq<char>) -> Ev { Ev { cat: c, sev: ValidationSeverity::Error, path: Some(p) } }
pub open spec fn errs(v: Seq<PackageValidationIssue>, s: ValidationSeverity, k: int) -> nat decreases k { if k <= 0 { 0 } else { errs(v, s, k - 1) + (if v[k - 1].severity == s { 1nat } else { 0nat }) } }
//@fn core/package_validation/report.rs|PackageValidationIssue::error
//@ header: <M: VxText>(category: ValidationCategory, message: M, path: Option<&str>) -> (vx_ret: Self)
//@ sub: message.into() =>> vx_msg(message)
//@ sub: path.map(str::to_string) =>> vx_own(path)
//@ ensures: ev(vx_ret) == (Ev { cat: category, sev: ValidationSeverity::Error, path: orv(path) })
//@end
//@fn core/package_validation/report.rs|PackageValidationIssue::warning
//@ header: <M: VxText>(category: ValidationCategory, message: M, path: Option<&str>) -> (vx_ret: Self)
//@ sub: message.into() =>> vx_msg(message)
//@ sub: path.map(str::to_string) =>> vx_own(path)
//@ ensures: ev(vx_ret) == (Ev { cat: category, sev: ValidationSeverity::Warning, path: orv(path) })
//@end
// message: impl Into<String>, from a String or a text
pub trait VxText {}
impl VxText for String {}
impl<'a> VxText for &'a str {}
#[verifier::external_body] pub fn vx_msg<M: VxText>(m: M) -> String { unimplemented!() }
#[verifier::external_body] pub fn vx_own(o: Option<&str>) -> (r: Option<String>) ensures osv(r) == orv(o) { o.map(str::to_string) }
pub open spec fn clean(v: Seq<PackageValidationIssue>, k: int) -> bool { forall|i: int| 0 <= i < k ==> (#[trigger] v[i]).severity != ValidationSeverity::Error }
//@fn core/package_validation/report.rs|PackageValidationReport::is_valid
//@ loop 0 inv: vx_s0@ == self.issues@, vx_r0 ==> clean(self.issues@, vx_i0 as int), !vx_r0 ==> vx_i0 < self.issues@.len() && self.issues@[vx_i0 as int].severity == ValidationSeverity::Error
//@ ensures: vx_ret == clean(self.issues@, self.issues@.len() as int)
//@end
//@fn core/package_validation/report.rs|PackageValidationReport::is_ok
//@ ensures: vx_ret == clean(self.issues@, self.issues@.len() as int)
//@end
//@fn core/package_validation/report.rs|PackageValidationReport::error_count
//@ loop 0 inv: vx_s0@ == self.issues@, vx_r0 <= vx_i0, vx_r0 as int == errs(self.issues@, ValidationSeverity::Error, vx_i0 as int)
//@ ensures: vx_ret as int == errs(self.issues@, ValidationSeverity::Error, self.issues@.len() as int)
//@end
//@fn core/package_validation/report.rs|PackageValidationReport::warning_count
//@ loop 0 inv: vx_s0@ == self.issues@, vx_r0 <= vx_i0, vx_r0 as int == errs(self.issues@, ValidationSeverity::Warning, vx_i0 as int)
//@ ensures: vx_ret as int == errs(self.issues@, ValidationSeverity::Warning, self.issues@.len() as int)
//@end
//@fn core/package_validation/report.rs|PackageValidationReport::push
//@ begin: let ghost vx_o = self.issues@; let ghost vx_g = issue; proof { assert(vx_o.push(vx_g).len() == vx_o.len() + 1); }
//@ end: proof { let a = old(self); let b = self; assert forall|e: Ev| #[trigger] says(*b, e) <==> says(*a, e) || e == ev(vx_g) by { if says(*a, e) { let i = choose|i: int| 0 <= i < a.issues@.len() && ev(#[trigger] a.issues@[i]) == e; assert(b.issues@[i] == a.issues@[i]); } if e == ev(vx_g) { assert(b.issues@[a.issues@.len() as int] == vx_g); } if says(*b, e) { let i = choose|i: int| 0 <= i < b.issues@.len() && ev(#[trigger] b.issues@[i]) == e; if i < a.issues@.len() { assert(b.issues@[i] == a.issues@[i]); } } } }
//@ ensures: final(self).issues@ == old(self).issues@.push(issue), forall|e: Ev| #[trigger] says(*final(self), e) <==> says(*old(self), e) || e == ev(issue)
//@end
// what the report gained is exactly what d says
pub open spec fn gains(a: PackageValidationReport, b: PackageValidationReport, d: spec_fn(Ev) -> bool) -> bool { forall|e: Ev| #![trigger says(b, e)] #![trigger says(a, e)] says(b, e) <==> says(a, e) || d(e) }
// ------------------------------------------------- the package as the checks see it
pub open spec fn relv(r: Relationship) -> RelV { RelV { id: r.id@, target: r.target@, resolved: r.resolved@, mode: r.target_mode@ } }
pub open spec fn isrels(v: Seq<Relationship>, s: Seq<RelV>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < v.len() ==> relv(#[trigger] v[i]) == s[i] }
pub open spec fn rels_of(p: Pk, n: Seq<char>) -> Seq<RelV> { if p.rels.dom().contains(n) { p.rels[n] } else { Seq::<RelV>::empty() } }
impl PackageContext {
    pub uninterp spec fn pk(&self) -> Pk;
    // the lists the checks walk over are those of the archive, each entry once, in no particular order
    pub open spec fn ok(&self) -> bool {
        &&& forall|n: Seq<char>| #[trigger] self.pk().names.contains(n) <==> among(self.names@, self.names@.len() as int, n)
        &&& forall|i: int| 0 <= i < self.names@.len() ==> self.pk().names.contains((#[trigger] self.names@[i])@)
        &&& forall|i: int, j: int| 0 <= i < j < self.names@.len() ==> (#[trigger] self.names@[i])@ != (#[trigger] self.names@[j])@
        &&& forall|n: Seq<char>| #[trigger] self.pk().rels.dom().contains(n) <==> exists|i: int| 0 <= i < self.rels@.len() && (#[trigger] self.rels@[i]).0@ == n
        &&& forall|i: int| 0 <= i < self.rels@.len() ==> self.pk().rels.dom().contains((#[trigger] self.rels@[i]).0@) && isrels(self.rels@[i].1@, self.pk().rels[self.rels@[i].0@])
    }
    #[verifier::external_body] pub fn from_archive<R: Read + Seek>(archive: &mut ZipArchive<R>) -> (r: Self) ensures r.ok(), r.pk() == old(archive)@, final(archive)@ == old(archive)@ { unimplemented!() }
    #[verifier::external_body] pub fn has_part(&self, path: &str) -> (r: bool) ensures r == self.pk().names.contains(path@) { unimplemented!() }
    #[verifier::external_body] pub fn relationships(&self, rels_path: &str) -> (r: &Vec<Relationship>) ensures isrels(r@, rels_of(self.pk(), rels_path@)) { unimplemented!() }
    #[verifier::external_body] pub fn relationship_parts(&self) -> (r: Vec<(&str, &Vec<Relationship>)>) ensures r@.len() == self.rels@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == self.rels@[i].0@ && *r@[i].1 == self.rels@[i].1 { unimplemented!() }
    // what is read is what the archive holds; neither changes (the cache of texts is part of the assumption)
    #[verifier::external_body] pub fn read_part<R: Read + Seek>(&mut self, archive: &mut ZipArchive<R>, path: &str) -> (r: Option<String>)
        requires old(archive)@ == old(self).pk()
        ensures *final(self) == *old(self), final(archive)@ == old(archive)@, r is Some <==> old(archive)@.texts.dom().contains(path@), r is Some ==> r->Some_0@ == old(archive)@.texts[path@] { unimplemented!() }
}
// ------------------------------------------------- reading XML (C10's replay compares it with an independent parser)
pub struct XmlTag { pub name: String, pub attributes: Vec<(String, String)> }
pub struct TagV { pub name: Seq<char>, pub attrs: Map<Seq<char>, Seq<char>> }
pub uninterp spec fn tag_attrs(t: XmlTag) -> Map<Seq<char>, Seq<char>>;
impl XmlTag { #[verifier::external_body] pub fn attr(&self, name: &str) -> (r: Option<&str>) ensures r is Some <==> tag_attrs(*self).dom().contains(name@), r is Some ==> r->Some_0@ == tag_attrs(*self)[name@] { unimplemented!() } }
// the tags of a text, none where it is not well-formed
pub uninterp spec fn tags(x: Seq<char>) -> Seq<TagV>;
pub uninterp spec fn wf(x: Seq<char>) -> bool;
pub open spec fn tagv(t: XmlTag) -> TagV { TagV { name: t.name@, attrs: tag_attrs(t) } }
#[verifier::external_body] pub fn vx_tags(x: &str) -> (r: Vec<XmlTag>) ensures r@.len() == tags(x@).len(), forall|i: int| 0 <= i < r@.len() ==> tagv(#[trigger] r@[i]) == tags(x@)[i] { unimplemented!() }
#[verifier::external_body] pub fn vx_wf(x: &str) -> (r: Result<(), String>) ensures r is Ok <==> wf(x@) { unimplemented!() }
pub open spec fn vals(v: Seq<TagV>, el: Seq<char>, at: Seq<char>, k: int) -> Seq<Seq<char>> decreases k {
    if k <= 0 { Seq::<Seq<char>>::empty() } else if v[k - 1].name == el && v[k - 1].attrs.dom().contains(at) { vals(v, el, at, k - 1).push(v[k - 1].attrs[at]) } else { vals(v, el, at, k - 1) }
}
// the values of attribute at of the elements el of x, in order
pub open spec fn attrs(x: Seq<char>, el: Seq<char>, at: Seq<char>) -> Seq<Seq<char>> { vals(tags(x), el, at, tags(x).len() as int) }
pub open spec fn strs(v: Seq<String>, s: Seq<Seq<char>>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == s[i] }
//@fn extract_attr_values
//@ opt: streq
//@ sub: scan_tags(xml).unwrap_or_default() =>> vx_tags(xml)
//@ sub: e.attr(attr).map(str::to_string) =>> e.attr(attr).map(|x| x.to_string())
//@ loop 0 inv: tyv::<String>(vx_r0), strs(vx_r0@, vals(tags(xml@), element@, attr@, vx_i0 as int)), vx_s0@.len() == tags(xml@).len(), forall|i: int| 0 <= i < vx_s0@.len() ==> tagv(#[trigger] vx_s0@[i]) == tags(xml@)[i]
//@ ensures: strs(vx_ret@, attrs(xml@, element@, attr@))
//@end
// ------------------------------------------------- what is wrong with a package
use ValidationCategory as C;
pub open spec fn needed(n: Seq<char>) -> bool {
    n == S"[Content_Types].xml" || n == S"_rels/.rels" || n == S"ppt/presentation.xml" || n == S"ppt/_rels/presentation.xml.rels" || n == S"ppt/presProps.xml" || n == S"ppt/viewProps.xml"
    || n == S"ppt/tableStyles.xml" || n == S"ppt/theme/theme1.xml" || n == S"ppt/slideMasters/slideMaster1.xml" || n == S"ppt/slideLayouts/slideLayout1.xml" || n == S"docProps/core.xml" || n == S"docProps/app.xml"
}
pub open spec fn at(e: Ev, c: ValidationCategory) -> bool { e.cat == c && e.sev == ValidationSeverity::Error && e.path is Some }
pub open spec fn bad_required(p: Pk, e: Ev) -> bool { at(e, C::MissingPart) && needed(e.path->Some_0) && !p.names.contains(e.path->Some_0) }
pub open spec fn unreadable(p: Pk, n: Seq<char>) -> bool { !p.texts.dom().contains(n) || !wf(p.texts[n]) }
pub open spec fn bad_text(p: Pk, n: Seq<char>) -> bool { xmlish(n) && unreadable(p, n) }
pub open spec fn bad_xml(p: Pk, e: Ev) -> bool { at(e, C::Xml) && p.names.contains(e.path->Some_0) && bad_text(p, e.path->Some_0) }
pub open spec fn lost(p: Pk, r: RelV) -> bool { r.mode != S"External" && !p.names.contains(r.resolved) }
pub open spec fn loses(p: Pk, s: Seq<RelV>, k: int) -> bool { exists|j: int| 0 <= j < k && lost(p, #[trigger] s[j]) }
pub open spec fn bad_target(p: Pk, e: Ev) -> bool { at(e, C::Relationship) && p.rels.dom().contains(e.path->Some_0) && loses(p, p.rels[e.path->Some_0], p.rels[e.path->Some_0].len() as int) }
//@const REQUIRED_PACKAGE_PARTS
//@fn core/package_validation/rules.rs|check_required_parts
//@ sub: REQUIRED_PACKAGE_PARTS =>> &vx_strs_REQUIRED_PACKAGE_PARTS()
//@ begin: let ghost vx_o = *report;
//@ loop 0 inv: forall|e: Ev| #![trigger says(*report, e)] #![trigger says(vx_o, e)] says(*report, e) <==> says(vx_o, e) || (at(e, C::MissingPart) && (exists|i: int| 0 <= i < vx_i0 && e.path->Some_0 == (#[trigger] vx_s0@[i])@) && !ctx.pk().names.contains(e.path->Some_0))
//@ requires: ctx.ok()
//@ ensures: gains(*old(report), *final(report), |e: Ev| bad_required(ctx.pk(), e))
//@end
// n is one of the first k of v
pub open spec fn among(v: Seq<String>, k: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && (#[trigger] v[i])@ == n }
pub open spec fn xmlish(n: Seq<char>) -> bool { has_suffix(n, S".xml") || has_suffix(n, S".rels") }
pub proof fn lemma_among(v: Seq<String>, k: int) requires 0 <= k < v.len() ensures forall|n: Seq<char>| #![trigger among(v, k + 1, n)] among(v, k + 1, n) <==> among(v, k, n) || n == v[k]@ { assert forall|n: Seq<char>| #![trigger among(v, k + 1, n)] among(v, k, n) || n == v[k]@ implies among(v, k + 1, n) by { if among(v, k, n) { let i = choose|i: int| 0 <= i < k && (#[trigger] v[i])@ == n; assert(v[i]@ == n); } } }
pub proof fn lemma_pushed(v: Seq<String>, w: Seq<String>) requires w.len() == v.len() + 1, w.drop_last() == v ensures forall|n: Seq<char>| #![trigger among(w, w.len() as int, n)] among(w, w.len() as int, n) <==> among(v, v.len() as int, n) || n == w.last()@ {
    lemma_among(w, v.len() as int);
    assert forall|n: Seq<char>| #![trigger among(w, w.len() as int, n)] among(w, v.len() as int, n) == among(v, v.len() as int, n) by { if among(v, v.len() as int, n) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == n; assert(w[i] == v[i]); } if among(w, v.len() as int, n) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] w[i])@ == n; assert(w[i] == v[i]); } }
}
//@fn core/package_validation/rules.rs|check_xml_parts
//@ opt: noinline
//@ sub: validate_well_formed_xml(&content).map_err(|e| e.to_string()) =>> vx_wf(&content)
//@ begin: let ghost vx_o = *report; let ghost vx_p = ctx.pk();
//@ loop 0 inv: tyv::<String>(vx_r0), vx_s0@ == ctx.names@, *ctx == *old(ctx), archive@ == old(archive)@, forall|n: Seq<char>| #[trigger] among(vx_r0@, vx_r0@.len() as int, n) <==> among(ctx.names@, vx_i0 as int, n) && xmlish(n)
//@ loop 0 begin: let ghost vx_v = vx_r0@; proof { lemma_among(ctx.names@, vx_i0 as int); }
//@ loop 0 end: proof { if vx_r0@.len() > vx_v.len() { assert(vx_r0@.drop_last() =~= vx_v); lemma_pushed(vx_v, vx_r0@); } }
//@ loop 1 inv: vx_s1@ == xml_parts@, *ctx == *old(ctx), archive@ == old(archive)@, ctx.pk() == archive@, forall|e: Ev| #![trigger says(*report, e)] #![trigger says(vx_o, e)] says(*report, e) <==> says(vx_o, e) || at(e, C::Xml) && among(xml_parts@, vx_i1 as int, e.path->Some_0) && unreadable(ctx.pk(), e.path->Some_0)
//@ loop 1 begin: proof { lemma_among(xml_parts@, vx_i1 as int); }
//@ requires: old(ctx).ok(), old(archive)@ == old(ctx).pk()
//@ ensures: gains(*old(report), *final(report), |e: Ev| bad_xml(old(ctx).pk(), e)), *final(ctx) == *old(ctx), final(archive)@ == old(archive)@
//@end
//@fn core/package_validation/rules.rs|check_relationship_targets
//@ opt: streq
//@ begin: let ghost vx_o = *report; let ghost vx_p = ctx.pk();
//@ loop 0 inv: ctx.ok(), vx_p == ctx.pk(), vx_s0@.len() == ctx.rels@.len(), forall|i: int| 0 <= i < vx_s0@.len() ==> (#[trigger] vx_s0@[i]).0@ == ctx.rels@[i].0@ && *vx_s0@[i].1 == ctx.rels@[i].1, forall|e: Ev| #![trigger says(*report, e)] #![trigger says(vx_o, e)] says(*report, e) <==> says(vx_o, e) || at(e, C::Relationship) && (exists|i: int| 0 <= i < vx_i0 && (#[trigger] ctx.rels@[i]).0@ == e.path->Some_0 && loses(vx_p, vx_p.rels[e.path->Some_0], vx_p.rels[e.path->Some_0].len() as int))
//@ loop 0 begin: let ghost vx_m = *report; proof { let _ = ctx.rels@[vx_i0 as int]; }
//@ loop 1 inv: ctx.ok(), vx_p == ctx.pk(), 0 < vx_i0 <= ctx.rels@.len(), rels_path@ == ctx.rels@[vx_i0 - 1].0@, vx_s1@ == ctx.rels@[vx_i0 - 1].1@, forall|e: Ev| #![trigger says(*report, e)] #![trigger says(vx_m, e)] says(*report, e) <==> says(vx_m, e) || at(e, C::Relationship) && e.path->Some_0 == rels_path@ && loses(vx_p, vx_p.rels[rels_path@], vx_i1 as int)
//@ loop 1 begin: proof { lemma_loses(vx_p, vx_p.rels[rels_path@], vx_i1 as int); let _ = vx_s1@[vx_i1 as int]; assert(relv(vx_s1@[vx_i1 as int]) == vx_p.rels[rels_path@][vx_i1 as int]); }
//@ requires: ctx.ok()
//@ ensures: gains(*old(report), *final(report), |e: Ev| bad_target(ctx.pk(), e))
//@end
pub proof fn lemma_loses(p: Pk, s: Seq<RelV>, k: int) requires 0 <= k < s.len() ensures loses(p, s, k + 1) == (loses(p, s, k) || lost(p, s[k])) { if loses(p, s, k) { let j = choose|j: int| 0 <= j < k && lost(p, #[trigger] s[j]); assert(lost(p, s[j])); } if loses(p, s, k + 1) { let j = choose|j: int| 0 <= j < k + 1 && lost(p, #[trigger] s[j]); if j < k { assert(lost(p, s[j])); } } }
// ---- V3
pub open spec fn strv(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|x: String| x@) }
// s is one of the first k
pub open spec fn hasv(s: Seq<Seq<char>>, k: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && #[trigger] s[i] == n }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
// what follows the last '.', everything where there is none
pub uninterp spec fn extof(n: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_ext(p: &String) -> (r: &str) ensures r@ == extof(p@) { p.rsplit('.').next().unwrap_or("") }
pub trait VxCase { fn vx_caseless(&self, o: &str) -> (r: bool); }
impl VxCase for String { #[verifier::external_body] fn vx_caseless(&self, o: &str) -> (r: bool) ensures r == (lower(self@) == lower(o@)) { self.eq_ignore_ascii_case(o) } }
// name is the part, with a leading slash
#[verifier::external_body] pub fn vx_is_name(name: &String, path: &String) -> (r: bool) ensures r == (name@ == seq!['/'] + path@) { name.strip_prefix('/') == Some(path) }
pub open spec fn covered(ct: Seq<char>, n: Seq<char>) -> bool {
    ||| hasv(attrs(ct, S"Override", S"PartName"), attrs(ct, S"Override", S"PartName").len() as int, seq!['/'] + n)
    ||| extof(n).len() > 0 && exists|i: int| 0 <= i < attrs(ct, S"Default", S"Extension").len() && lower(#[trigger] attrs(ct, S"Default", S"Extension")[i]) == lower(extof(n))
}
pub open spec fn untyped(p: Pk, n: Seq<char>) -> bool { !has_suffix(n, S".rels") && n != S"[Content_Types].xml" && !covered(p.texts[S"[Content_Types].xml"], n) }
pub open spec fn bad_type(p: Pk, e: Ev) -> bool { p.texts.dom().contains(S"[Content_Types].xml") && at(e, C::ContentType) && p.names.contains(e.path->Some_0) && untyped(p, e.path->Some_0) }
//@fn core/package_validation/rules.rs|check_content_types
//@ opt: noinline, streq, keep_unwrap_or
//@ sub: path.rsplit('.').next().unwrap_or("") =>> vx_ext(path)
//@ sub: name.strip_prefix('/') == Some(path) =>> vx_is_name(name, path)
//@ sub: d.eq_ignore_ascii_case(ext) =>> d.vx_caseless(ext)
//@ begin: let ghost vx_o = *report; let ghost vx_p = ctx.pk();
//@ loop 0 inv: *ctx == *old(ctx), ctx.ok(), vx_p == ctx.pk(), vx_s0@ == ctx.names@, ct@ == vx_p.texts[S"[Content_Types].xml"], strs(overrides@, attrs(ct@, S"Override", S"PartName")), strs(defaults@, attrs(ct@, S"Default", S"Extension")), forall|e: Ev| #![trigger says(*report, e)] #![trigger says(vx_o, e)] says(*report, e) <==> says(vx_o, e) || at(e, C::ContentType) && among(ctx.names@, vx_i0 as int, e.path->Some_0) && untyped(vx_p, e.path->Some_0)
//@ loop 0 begin: proof { lemma_among(ctx.names@, vx_i0 as int); }
//@ loop 1 inv: vx_s1@ == overrides@, !vx_r1 ==> !hasv(strv(overrides@), vx_i1 as int, seq!['/'] + path@), vx_r1 ==> vx_i1 < overrides@.len() && overrides@[vx_i1 as int]@ == seq!['/'] + path@
//@ loop 1 post: proof { assert(strv(overrides@) =~= attrs(ct@, S"Override", S"PartName")); if vx_r1 { assert(strv(overrides@)[vx_i1 as int] == seq!['/'] + path@); } }
//@ loop 2 inv: vx_s2@ == defaults@, !vx_r2 ==> forall|i: int| 0 <= i < vx_i2 ==> lower((#[trigger] defaults@[i])@) != lower(ext@), vx_r2 ==> vx_i2 < defaults@.len() && lower(defaults@[vx_i2 as int]@) == lower(ext@)
//@ loop 2 post: proof { let a = attrs(ct@, S"Default", S"Extension"); if vx_r2 { assert(a[vx_i2 as int] == defaults@[vx_i2 as int]@); } else { assert forall|i: int| 0 <= i < a.len() implies lower(#[trigger] a[i]) != lower(ext@) by { assert(defaults@[i]@ == a[i]); } } }
//@ requires: old(ctx).ok(), old(archive)@ == old(ctx).pk()
//@ ensures: gains(*old(report), *final(report), |e: Ev| bad_type(old(ctx).pk(), e)), *final(ctx) == *old(ctx), final(archive)@ == old(archive)@
//@end
// the relationship that counts for an id: the last with it
pub open spec fn named(s: Seq<RelV>, k: int, id: Seq<char>) -> Option<RelV> decreases k { if k <= 0 { None } else if s[k - 1].id == id { Some(s[k - 1]) } else { named(s, k - 1, id) } }
pub open spec fn leads(s: Seq<RelV>, id: Seq<char>, what: Seq<char>) -> bool { match named(s, s.len() as int, id) { Some(r) => has_sub(r.resolved, what), None => false } }
#[verifier::external_body] pub struct VxRelMap { c: u8 }
impl VxRelMap {
    pub uninterp spec fn view(&self) -> Seq<RelV>;
    #[verifier::external_body] pub fn get(&self, id: &str) -> (r: Option<&str>) ensures (match named(self@, self@.len() as int, id@) { Some(x) => r is Some && r->Some_0@ == x.resolved, None => r is None }) { unimplemented!() }
    #[verifier::external_body] pub fn get2(&self, id: &String) -> (r: Option<(&String, &String)>) ensures (match named(self@, self@.len() as int, id@) { Some(x) => r is Some && r->Some_0.0@ == x.resolved && r->Some_0.1@ == x.mode, None => r is None }) { unimplemented!() }
}
// the pairs put into a HashMap in order: a later one replaces an earlier one of the same id
#[verifier::external_body] pub fn vx_rel_map(v: &Vec<Relationship>) -> (r: VxRelMap) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == relv(v@[i]) { unimplemented!() }
pub open spec fn cnt(v: Seq<String>, k: int) -> nat decreases k { if k <= 0 { 0 } else { cnt(v, k - 1) + (if is_slide(v[k - 1]@) { 1nat } else { 0nat }) } }
pub open spec fn is_slide(n: Seq<char>) -> bool { has_prefix(n, S"ppt/slides/slide") && has_suffix(n, S".xml") && !has_sub(n, S"/_rels/") }
//@fn core/package_validation/rules.rs|is_slide_part
//@ ensures: vx_ret == is_slide(path@)
//@end
//@fn generator/package_xml.rs|first_slide_rel_id
//@ ensures: vx_ret == 2
//@end
//@fn generator/package_xml.rs|slide_id_value
//@ requires: slide_num < usize::MAX - 255
//@ ensures: vx_ret == 255 + slide_num
//@end
// the order PowerPoint expects in presentation.xml.rels is decided by replay only
pub uninterp spec fn unordered(s: Seq<RelV>) -> bool;
#[verifier::external_body] pub fn validate_presentation_rel_order(pres_rels: &Vec<Relationship>, report: &mut PackageValidationReport) ensures forall|s: Seq<RelV>| #[trigger] isrels(pres_rels@, s) ==> gains(*old(report), *final(report), |e: Ev| unordered(s) && e == er(C::Relationship, S"ppt/_rels/presentation.xml.rels")) { unimplemented!() }
pub open spec fn astray(s: Seq<RelV>, ids: Seq<Seq<char>>, k: int, what: Seq<char>) -> bool { exists|i: int| 0 <= i < k && !leads(s, #[trigger] ids[i], what) }
pub open spec fn sldids(x: Seq<char>) -> Seq<Seq<char>> { attrs(x, S"p:sldId", S"r:id") }
pub open spec fn unconventional(x: Seq<char>) -> bool { !has_sub(x, S"id=\"" + dec(256) + S"\"") || has_sub(x, S"<p:sldIdLst>") && !has_sub(x, S"r:id=\"rId" + dec(2) + S"\"") }
pub open spec fn bad_list(c: PackageContext, x: Seq<char>) -> bool {
    ||| sldids(x).len() > 0 && unconventional(x)
    ||| astray(rels_of(c.pk(), S"ppt/_rels/presentation.xml.rels"), sldids(x), sldids(x).len() as int, S"/slides/slide")
    ||| cnt(c.names@, c.names@.len() as int) != sldids(x).len()
}
pub open spec fn bad_pres(c: PackageContext, e: Ev) -> bool {
    c.pk().texts.dom().contains(S"ppt/presentation.xml") && {
        ||| e == er(C::Presentation, S"ppt/presentation.xml") && bad_list(c, c.pk().texts[S"ppt/presentation.xml"])
        ||| e == er(C::Relationship, S"ppt/_rels/presentation.xml.rels") && unordered(rels_of(c.pk(), S"ppt/_rels/presentation.xml.rels"))
    }
}
pub proof fn lemma_astray(s: Seq<RelV>, ids: Seq<Seq<char>>, k: int, what: Seq<char>) requires 0 <= k < ids.len() ensures astray(s, ids, k + 1, what) == (astray(s, ids, k, what) || !leads(s, ids[k], what)) { if astray(s, ids, k, what) { let i = choose|i: int| 0 <= i < k && !leads(s, #[trigger] ids[i], what); assert(!leads(s, ids[i], what)); } }
//@fn core/package_validation/rules.rs|check_presentation_structure
//@ opt: noinline, contains
//@ sub: let rel_by_id: HashMap<&str, &str> = pres_rels.iter().map(|r| (r.id.as_str(), r.resolved.as_str())).collect(); =>> let rel_by_id = vx_rel_map(pres_rels);
//@ begin: let ghost vx_o = *report; let ghost vx_p = ctx.pk(); let ghost vx_s = rels_of(vx_p, S"ppt/_rels/presentation.xml.rels");
//@ loop 0 inv: vx_s0@ == sld_rids@, strs(sld_rids@, sldids(pres@)), rel_by_id@ == vx_s, forall|e: Ev| #![trigger says(*report, e)] #![trigger says(vx_m, e)] says(*report, e) <==> says(vx_m, e) || e == er(C::Presentation, S"ppt/presentation.xml") && astray(vx_s, sldids(pres@), vx_i0 as int, S"/slides/slide")
//@ loop 0 pre: let ghost vx_m = *report; proof { assert(rel_by_id@ =~= vx_s); }
//@ loop 0 begin: proof { lemma_astray(vx_s, sldids(pres@), vx_i0 as int, S"/slides/slide"); assert(vx_s0@[vx_i0 as int]@ == sldids(pres@)[vx_i0 as int]); }
//@ loop 1 inv: vx_s1@ == ctx.names@, vx_r1 <= vx_i1, vx_r1 == cnt(ctx.names@, vx_i1 as int)
//@ requires: old(ctx).ok(), old(archive)@ == old(ctx).pk()
//@ ensures: gains(*old(report), *final(report), |e: Ev| bad_pres(*old(ctx), e)), *final(ctx) == *old(ctx), final(archive)@ == old(archive)@
//@end
pub open spec fn shared(a: Seq<Seq<char>>, b: Seq<Seq<char>>, k: int) -> bool { exists|i: int| 0 <= i < k && hasv(b, b.len() as int, #[trigger] a[i]) }
pub open spec fn bad_ids(pres: Seq<char>, master: Seq<char>) -> bool {
    ||| shared(attrs(pres, S"p:notesMasterId", S"id"), attrs(master, S"p:sldLayoutId", S"id"), attrs(pres, S"p:notesMasterId", S"id").len() as int)
    ||| shared(attrs(pres, S"p:handoutMasterId", S"id"), attrs(master, S"p:sldLayoutId", S"id"), attrs(pres, S"p:handoutMasterId", S"id").len() as int)
}
//@fn core/package_validation/rules.rs|check_master_id_uniqueness
//@ opt: forarr
//@ sub: let layout_ids: HashSet<String> = extract_attr_values(master, "p:sldLayoutId", "id").into_iter().collect(); =>> let layout_ids = VxSet::of(extract_attr_values(master, "p:sldLayoutId", "id"));
//@ sub: extract_attr_values(pres, tag, "id") =>> &extract_attr_values(pres, tag, "id")
//@ begin: let ghost vx_o = *report; let ghost vx_l = attrs(master@, S"p:sldLayoutId", S"id"); let ghost vx_1 = attrs(pres@, S"p:notesMasterId", S"id"); let ghost vx_2 = attrs(pres@, S"p:handoutMasterId", S"id");
//@ loop 0 inv: layout_ids@ == vx_l.to_set(), vx_1 == attrs(pres@, S"p:notesMasterId", S"id"), vx_2 == attrs(pres@, S"p:handoutMasterId", S"id"), vx_s0@.len() == 2, vx_s0@[0].0@ == S"p:notesMasterId", vx_s0@[1].0@ == S"p:handoutMasterId", forall|e: Ev| #![trigger says(*report, e)] #![trigger says(vx_o, e)] says(*report, e) <==> says(vx_o, e) || e == er(C::SlideMaster, S"ppt/presentation.xml") && (vx_i0 > 0 && shared(vx_1, vx_l, vx_1.len() as int) || vx_i0 > 1 && shared(vx_2, vx_l, vx_2.len() as int))
//@ loop 0 begin: let ghost vx_m = *report; let ghost vx_a = if vx_i0 == 0 { vx_1 } else { vx_2 };
//@ loop 1 inv: layout_ids@ == vx_l.to_set(), strs(vx_s1@, vx_a), forall|e: Ev| #![trigger says(*report, e)] #![trigger says(vx_m, e)] says(*report, e) <==> says(vx_m, e) || e == er(C::SlideMaster, S"ppt/presentation.xml") && shared(vx_a, vx_l, vx_i1 as int)
//@ loop 1 begin: proof { lemma_shared(vx_a, vx_l, vx_i1 as int); lemma_hasv(vx_l, vx_a[vx_i1 as int]); assert(vx_s1@[vx_i1 as int]@ == vx_a[vx_i1 as int]); }
//@ ensures: gains(*old(report), *final(report), |e: Ev| e == er(C::SlideMaster, S"ppt/presentation.xml") && bad_ids(pres@, master@))
//@end
pub proof fn lemma_hasv(s: Seq<Seq<char>>, n: Seq<char>) ensures hasv(s, s.len() as int, n) == s.to_set().contains(n) { broadcast use vstd::seq_lib::group_seq_properties; if s.contains(n) { let i = choose|i: int| 0 <= i < s.len() && s[i] == n; assert(s[i] == n); } if hasv(s, s.len() as int, n) { assert(s.contains(n)); } }
pub proof fn lemma_shared(a: Seq<Seq<char>>, b: Seq<Seq<char>>, k: int) requires 0 <= k < a.len() ensures shared(a, b, k + 1) == (shared(a, b, k) || hasv(b, b.len() as int, a[k])) { if shared(a, b, k) { let i = choose|i: int| 0 <= i < k && hasv(b, b.len() as int, #[trigger] a[i]); assert(hasv(b, b.len() as int, a[i])); } }
#[verifier::external_body] pub struct VxSet { m: std::collections::HashSet<String> }
impl VxSet {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn of(v: Vec<String>) -> (r: Self) ensures forall|s: Seq<Seq<char>>| #[trigger] strs(v@, s) ==> r@ == s.to_set() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, k: &str) -> (r: bool) ensures r == self@.contains(k@) { self.m.contains(k) }
    #[verifier::external_body] pub fn insert(&mut self, k: String) -> (r: bool) ensures r == !old(self)@.contains(k@), final(self)@ == old(self)@.insert(k@) { self.m.insert(k) }
}
pub struct ZipFile { pub n: Ghost<Option<int>> }
impl ZipFile { #[verifier::external_body] pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, VxErr>) ensures r is Ok <==> old(self).n@ is Some, r is Ok ==> final(buf)@.len() == old(buf)@.len() + old(self).n@->Some_0 { unimplemented!() } }
impl<R> ZipArchive<R> { #[verifier::external_body] pub fn by_name(&mut self, name: &str) -> (r: Result<ZipFile, VxErr>) ensures final(self)@ == old(self)@, old(self)@.sizes.dom().contains(name@) ==> r is Ok && r->Ok_0.n@ == Some(old(self)@.sizes[name@]), r is Ok ==> old(self)@.sizes.dom().contains(name@) || r->Ok_0.n@ is None { unimplemented!() } }
pub open spec fn bad_theme(p: Pk, e: Ev) -> bool { e == er(C::Theme, S"ppt/theme/theme1.xml") && p.sizes.dom().contains(S"ppt/theme/theme1.xml") && p.sizes[S"ppt/theme/theme1.xml"] < 7000 }
//@fn core/package_validation/rules.rs|check_theme
//@ sub: let mut buf = Vec::new(); =>> let mut buf: Vec<u8> = Vec::new();
//@ sub: let _ = ctx; =>>
//@ requires: old(ctx).ok(), old(archive)@ == old(ctx).pk()
//@ ensures: gains(*old(report), *final(report), |e: Ev| bad_theme(old(ctx).pk(), e)), *final(ctx) == *old(ctx), final(archive)@ == old(archive)@
//@end
pub open spec fn mas() -> Seq<char> { S"ppt/slideMasters/slideMaster1.xml" }
pub open spec fn layids(x: Seq<char>) -> Seq<Seq<char>> { attrs(x, S"p:sldLayoutId", S"r:id") }
pub open spec fn bad_master(p: Pk, e: Ev) -> bool {
    p.texts.dom().contains(mas()) && {
        ||| e == er(C::SlideMaster, mas()) && !has_sub(p.texts[mas()], S"<p:txStyles>")
        ||| p.texts.dom().contains(S"ppt/presentation.xml") && e == er(C::SlideMaster, mas()) && astray(rels_of(p, S"ppt/slideMasters/_rels/slideMaster1.xml.rels"), layids(p.texts[mas()]), layids(p.texts[mas()]).len() as int, S"slideLayout")
        ||| p.texts.dom().contains(S"ppt/presentation.xml") && e == er(C::SlideMaster, S"ppt/presentation.xml") && bad_ids(p.texts[S"ppt/presentation.xml"], p.texts[mas()])
    }
}
//@fn core/package_validation/rules.rs|check_slide_master
//@ opt: noinline
//@ sub: let rel_by_id: HashMap<&str, &str> = master_rels.iter().map(|r| (r.id.as_str(), r.resolved.as_str())).collect(); =>> let rel_by_id = vx_rel_map(master_rels);
//@ sub: extract_attr_values(&master, "p:sldLayoutId", "r:id") =>> &extract_attr_values(&master, "p:sldLayoutId", "r:id")
//@ begin: let ghost vx_o = *report; let ghost vx_p = ctx.pk(); let ghost vx_s = rels_of(vx_p, S"ppt/slideMasters/_rels/slideMaster1.xml.rels");
//@ loop 0 inv: strs(vx_s0@, layids(master@)), rel_by_id@ == vx_s, forall|e: Ev| #![trigger says(*report, e)] #![trigger says(vx_m, e)] says(*report, e) <==> says(vx_m, e) || e == er(C::SlideMaster, mas()) && astray(vx_s, layids(master@), vx_i0 as int, S"slideLayout")
//@ loop 0 pre: let ghost vx_m = *report; proof { assert(rel_by_id@ =~= vx_s); }
//@ loop 0 begin: proof { lemma_astray(vx_s, layids(master@), vx_i0 as int, S"slideLayout"); assert(vx_s0@[vx_i0 as int]@ == layids(master@)[vx_i0 as int]); }
//@ requires: old(ctx).ok(), old(archive)@ == old(ctx).pk()
//@ ensures: gains(*old(report), *final(report), |e: Ev| bad_master(old(ctx).pk(), e)), *final(ctx) == *old(ctx), final(archive)@ == old(archive)@
//@end
// ---- handout master, notes master, notes pages
pub open spec fn some_leads(s: Seq<RelV>, k: int, what: Seq<char>) -> bool { exists|i: int| 0 <= i < k && has_sub((#[trigger] s[i]).resolved, what) }
pub open spec fn hand() -> Seq<char> { S"ppt/handoutMasters/handoutMaster1.xml" }
pub open spec fn lacks(p: Pk, n: Seq<char>, what: Seq<char>) -> bool { p.texts.dom().contains(n) && !has_sub(p.texts[n], what) }
pub open spec fn bad_handout(p: Pk, e: Ev) -> bool {
    p.names.contains(hand()) && {
        ||| e == er(C::Presentation, S"ppt/presProps.xml") && p.texts.dom().contains(S"ppt/presProps.xml") && has_sub(p.texts[S"ppt/presProps.xml"], S"<p:prnPr")
        ||| e == er(C::Relationship, S"ppt/handoutMasters/_rels/handoutMaster1.xml.rels") && !some_leads(rels_of(p, S"ppt/handoutMasters/_rels/handoutMaster1.xml.rels"), rels_of(p, S"ppt/handoutMasters/_rels/handoutMaster1.xml.rels").len() as int, S"theme/theme3.xml")
        ||| e == er(C::SlideMaster, hand()) && lacks(p, hand(), S"<p:bg>")
    }
}
//@fn core/package_validation/rules.rs|check_handout_package
//@ begin: let ghost vx_s = rels_of(ctx.pk(), S"ppt/handoutMasters/_rels/handoutMaster1.xml.rels");
//@ loop 0 inv: isrels(vx_s0@, vx_s), !vx_r0 ==> !some_leads(vx_s, vx_i0 as int, S"theme/theme3.xml"), vx_r0 ==> vx_i0 < vx_s.len() && has_sub(vx_s[vx_i0 as int].resolved, S"theme/theme3.xml")
//@ loop 0 begin: proof { assert(relv(vx_s0@[vx_i0 as int]) == vx_s[vx_i0 as int]); }
//@ requires: old(ctx).ok(), old(archive)@ == old(ctx).pk()
//@ ensures: gains(*old(report), *final(report), |e: Ev| bad_handout(old(ctx).pk(), e)), *final(ctx) == *old(ctx), final(archive)@ == old(archive)@
//@end
pub open spec fn notm() -> Seq<char> { S"ppt/notesMasters/notesMaster1.xml" }
pub open spec fn bad_notes_master(p: Pk, e: Ev) -> bool {
    p.names.contains(notm()) && {
        ||| e == er(C::Relationship, S"ppt/notesMasters/_rels/notesMaster1.xml.rels") && !some_leads(rels_of(p, S"ppt/notesMasters/_rels/notesMaster1.xml.rels"), rels_of(p, S"ppt/notesMasters/_rels/notesMaster1.xml.rels").len() as int, S"theme/theme2.xml")
        ||| e == er(C::SlideMaster, notm()) && lacks(p, notm(), S"<p:bg>")
    }
}
//@fn core/package_validation/rules.rs|check_notes_master
//@ begin: let ghost vx_s = rels_of(ctx.pk(), S"ppt/notesMasters/_rels/notesMaster1.xml.rels");
//@ loop 0 inv: isrels(vx_s0@, vx_s), !vx_r0 ==> !some_leads(vx_s, vx_i0 as int, S"theme/theme2.xml"), vx_r0 ==> vx_i0 < vx_s.len() && has_sub(vx_s[vx_i0 as int].resolved, S"theme/theme2.xml")
//@ loop 0 begin: proof { assert(relv(vx_s0@[vx_i0 as int]) == vx_s[vx_i0 as int]); }
//@ requires: old(ctx).ok(), old(archive)@ == old(ctx).pk()
//@ ensures: gains(*old(report), *final(report), |e: Ev| bad_notes_master(old(ctx).pk(), e)), *final(ctx) == *old(ctx), final(archive)@ == old(archive)@
//@end
pub open spec fn no_page(p: Pk, r: RelV) -> bool { has_sub(r.resolved, S"notesSlides/notesSlide") && !p.names.contains(r.resolved) }
pub open spec fn pageless(p: Pk, s: Seq<RelV>, k: int) -> bool { exists|j: int| 0 <= j < k && no_page(p, #[trigger] s[j]) }
pub proof fn lemma_pageless(p: Pk, s: Seq<RelV>, k: int) requires 0 <= k < s.len() ensures pageless(p, s, k + 1) == (pageless(p, s, k) || no_page(p, s[k])) { if pageless(p, s, k) { let j = choose|j: int| 0 <= j < k && no_page(p, #[trigger] s[j]); assert(no_page(p, s[j])); } }
pub open spec fn bad_notes(p: Pk, e: Ev) -> bool { at(e, C::Slide) && p.rels.dom().contains(e.path->Some_0) && has_prefix(e.path->Some_0, S"ppt/slides/_rels/") && pageless(p, p.rels[e.path->Some_0], p.rels[e.path->Some_0].len() as int) }
//@fn core/package_validation/rules.rs|check_notes_slides
//@ begin: let ghost vx_o = *report; let ghost vx_p = ctx.pk();
//@ loop 0 inv: ctx.ok(), vx_p == ctx.pk(), vx_s0@.len() == ctx.rels@.len(), forall|i: int| 0 <= i < vx_s0@.len() ==> (#[trigger] vx_s0@[i]).0@ == ctx.rels@[i].0@ && *vx_s0@[i].1 == ctx.rels@[i].1, forall|e: Ev| #![trigger says(*report, e)] #![trigger says(vx_o, e)] says(*report, e) <==> says(vx_o, e) || at(e, C::Slide) && has_prefix(e.path->Some_0, S"ppt/slides/_rels/") && (exists|i: int| 0 <= i < vx_i0 && (#[trigger] ctx.rels@[i]).0@ == e.path->Some_0 && pageless(vx_p, vx_p.rels[e.path->Some_0], vx_p.rels[e.path->Some_0].len() as int))
//@ loop 0 begin: let ghost vx_m = *report; proof { let _ = ctx.rels@[vx_i0 as int]; }
//@ loop 1 inv: ctx.ok(), vx_p == ctx.pk(), 0 < vx_i0 <= ctx.rels@.len(), rels_path@ == ctx.rels@[vx_i0 - 1].0@, vx_s1@ == ctx.rels@[vx_i0 - 1].1@, forall|e: Ev| #![trigger says(*report, e)] #![trigger says(vx_m, e)] says(*report, e) <==> says(vx_m, e) || at(e, C::Slide) && e.path->Some_0 == rels_path@ && pageless(vx_p, vx_p.rels[rels_path@], vx_i1 as int)
//@ loop 1 begin: proof { lemma_pageless(vx_p, vx_p.rels[rels_path@], vx_i1 as int); let _ = vx_s1@[vx_i1 as int]; assert(relv(vx_s1@[vx_i1 as int]) == vx_p.rels[rels_path@][vx_i1 as int]); }
//@ requires: ctx.ok()
//@ ensures: gains(*old(report), *final(report), |e: Ev| bad_notes(ctx.pk(), e))
//@end
// ---- charts
pub uninterp spec fn replaced(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_replaced(s: &String, a: &str, b: &str, c: &str) -> (r: String) ensures r@ == replaced(s@, a@, b@) + c@ { s.replace(a, b) + c }
// s without the leading (trailing) copies of p
pub open spec fn stripall(s: Seq<char>, p: Seq<char>) -> Seq<char> decreases s.len() { if p.len() > 0 && has_prefix(s, p) { stripall(s.skip(p.len() as int), p) } else { s } }
pub open spec fn stripend(s: Seq<char>, p: Seq<char>) -> Seq<char> decreases s.len() { if p.len() > 0 && has_suffix(s, p) { stripend(s.take(s.len() - p.len()), p) } else { s } }
pub trait VxTrim {
    spec fn tv(&self) -> Seq<char>;
    fn vx_trim_start_matches(&self, p: &str) -> (r: &str) ensures r@ == stripall(self.tv(), p@);
    fn vx_trim_end_matches(&self, p: &str) -> (r: &str) ensures r@ == stripend(self.tv(), p@);
}
impl VxTrim for str {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_trim_start_matches(&self, p: &str) -> (r: &str) { self.trim_start_matches(p) }
    #[verifier::external_body] fn vx_trim_end_matches(&self, p: &str) -> (r: &str) { self.trim_end_matches(p) }
}
pub open spec fn is_chart(n: Seq<char>) -> bool { has_prefix(n, S"ppt/charts/chart") && has_suffix(n, S".xml") }
pub open spec fn crels(n: Seq<char>) -> Seq<char> { replaced(n, S"ppt/charts/", S"ppt/charts/_rels/") + S".rels" }
pub open spec fn book(n: Seq<char>) -> Seq<char> { S"ppt/embeddings/Microsoft_Excel_Sheet" + stripend(stripall(n, S"ppt/charts/chart"), S".xml") + S".xlsx" }
pub open spec fn some_target(s: Seq<RelV>, k: int, what: Seq<char>) -> bool { exists|i: int| 0 <= i < k && has_sub((#[trigger] s[i]).target, what) }
pub open spec fn chart_ev(p: Pk, n: Seq<char>, e: Ev) -> bool {
    ||| e == er(C::Chart, n) && (!p.names.contains(crels(n)) || lacks(p, n, S"<c:externalData") || !p.names.contains(book(n)))
    ||| e == er(C::Chart, crels(n)) && p.names.contains(crels(n)) && !some_target(rels_of(p, crels(n)), rels_of(p, crels(n)).len() as int, S"embeddings/")
}
pub open spec fn bad_chart(p: Pk, e: Ev) -> bool { exists|n: Seq<char>| p.names.contains(n) && is_chart(n) && #[trigger] chart_ev(p, n, e) }
pub open spec fn charts_upto(p: Pk, v: Seq<String>, k: int, e: Ev) -> bool { exists|i: int| 0 <= i < k && chart_ev(p, (#[trigger] v[i])@, e) }
pub proof fn lemma_charts(p: Pk, v: Seq<String>, k: int) requires 0 <= k < v.len() ensures forall|e: Ev| #![trigger charts_upto(p, v, k + 1, e)] charts_upto(p, v, k + 1, e) == (charts_upto(p, v, k, e) || chart_ev(p, v[k]@, e)) {
    assert forall|e: Ev| #![trigger charts_upto(p, v, k + 1, e)] charts_upto(p, v, k + 1, e) == (charts_upto(p, v, k, e) || chart_ev(p, v[k]@, e)) by { if charts_upto(p, v, k, e) { let i = choose|i: int| 0 <= i < k && chart_ev(p, (#[trigger] v[i])@, e); assert(chart_ev(p, v[i]@, e)); } }
}
pub proof fn lemma_charts_all(p: Pk, v: Seq<String>, c: PackageContext) requires c.ok(), p == c.pk(), forall|n: Seq<char>| #[trigger] among(v, v.len() as int, n) <==> among(c.names@, c.names@.len() as int, n) && is_chart(n) ensures forall|e: Ev| #![trigger bad_chart(p, e)] bad_chart(p, e) == charts_upto(p, v, v.len() as int, e) {
    assert forall|e: Ev| #![trigger bad_chart(p, e)] bad_chart(p, e) == charts_upto(p, v, v.len() as int, e) by {
        if bad_chart(p, e) { let n = choose|n: Seq<char>| p.names.contains(n) && is_chart(n) && #[trigger] chart_ev(p, n, e); assert(among(v, v.len() as int, n)); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == n; assert(chart_ev(p, v[i]@, e)); }
        if charts_upto(p, v, v.len() as int, e) { let i = choose|i: int| 0 <= i < v.len() && chart_ev(p, (#[trigger] v[i])@, e); assert(among(v, v.len() as int, v[i]@)); }
    }
}
//@fn core/package_validation/rules.rs|check_chart_packages
//@ opt: noinline
//@ sub: chart_path.replace("ppt/charts/", "ppt/charts/_rels/") + ".rels" =>> vx_replaced(&chart_path, "ppt/charts/", "ppt/charts/_rels/", ".rels")
//@ begin: let ghost vx_o = *report; let ghost vx_p = ctx.pk();
//@ loop 0 inv: tyv::<String>(vx_r0), vx_s0@ == ctx.names@, *ctx == *old(ctx), archive@ == old(archive)@, forall|n: Seq<char>| #[trigger] among(vx_r0@, vx_r0@.len() as int, n) <==> among(ctx.names@, vx_i0 as int, n) && is_chart(n)
//@ loop 0 begin: let ghost vx_v = vx_r0@; proof { lemma_among(ctx.names@, vx_i0 as int); }
//@ loop 0 end: proof { if vx_r0@.len() > vx_v.len() { assert(vx_r0@.drop_last() =~= vx_v); lemma_pushed(vx_v, vx_r0@); } }
//@ loop 1 inv: vx_s1@ == chart_parts@, *ctx == *old(ctx), archive@ == old(archive)@, ctx.pk() == archive@, ctx.pk() == vx_p, forall|e: Ev| #![trigger says(*report, e)] #![trigger says(vx_o, e)] says(*report, e) <==> says(vx_o, e) || charts_upto(vx_p, chart_parts@, vx_i1 as int, e)
//@ loop 1 begin: let ghost vx_m = *report; proof { lemma_charts(vx_p, chart_parts@, vx_i1 as int); }
//@ loop 1 post: proof { lemma_charts_all(vx_p, chart_parts@, *ctx); }
//@ loop 2 inv: isrels(vx_s2@, rels_of(vx_p, rels_path@)), !vx_r2 ==> !some_target(rels_of(vx_p, rels_path@), vx_i2 as int, S"embeddings/"), vx_r2 ==> vx_i2 < rels_of(vx_p, rels_path@).len() && has_sub(rels_of(vx_p, rels_path@)[vx_i2 as int].target, S"embeddings/")
//@ loop 2 begin: proof { assert(relv(vx_s2@[vx_i2 as int]) == rels_of(vx_p, rels_path@)[vx_i2 as int]); }
//@ requires: old(ctx).ok(), old(archive)@ == old(ctx).pk()
//@ ensures: gains(*old(report), *final(report), |e: Ev| bad_chart(old(ctx).pk(), e)), *final(ctx) == *old(ctx), final(archive)@ == old(archive)@
//@end
// ---- slides
// the attributes of every element of a slide (none where it is not well-formed), as they stand in its text
pub uninterp spec fn pairs(x: Seq<char>) -> Seq<Seq<(Seq<char>, Seq<char>)>>;
pub open spec fn pairv(v: Seq<(String, String)>) -> Seq<(Seq<char>, Seq<char>)> { v.map_values(|p: (String, String)| (p.0@, p.1@)) }
#[verifier::external_body] pub fn vx_ftags(x: &str) -> (r: Vec<XmlTag>) ensures r@.len() == pairs(x@).len(), forall|i: int| 0 <= i < r@.len() ==> pairv((#[trigger] r@[i]).attributes@) == pairs(x@)[i] { unimplemented!() }
pub open spec fn sv(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn inv(v: Seq<String>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == n }
#[verifier::external_body] pub fn vx_sort(v: &mut Vec<String>) ensures forall|n: Seq<char>| #[trigger] inv(final(v)@, n) == inv(old(v)@, n) { v.sort() }
#[verifier::external_body] pub fn vx_dedup(v: &mut Vec<String>) ensures forall|n: Seq<char>| #[trigger] inv(final(v)@, n) == inv(old(v)@, n) { v.dedup() }
// the relationships an element refers to, and those of a slide
pub open spec fn link(a: (Seq<char>, Seq<char>), n: Seq<char>) -> bool { (a.0 == S"r:embed" || a.0 == S"r:id") && a.1 == n && n.len() > 0 }
pub open spec fn links(a: Seq<(Seq<char>, Seq<char>)>, j: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < j && link(#[trigger] a[i], n) }
pub open spec fn linked(v: Seq<Seq<(Seq<char>, Seq<char>)>>, k: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && links(#[trigger] v[i], v[i].len() as int, n) }
pub open spec fn refers(x: Seq<char>, n: Seq<char>) -> bool { linked(pairs(x), pairs(x).len() as int, n) }
pub proof fn lemma_links(a: Seq<(Seq<char>, Seq<char>)>, j: int) requires 0 <= j < a.len() ensures forall|n: Seq<char>| #[trigger] links(a, j + 1, n) == (links(a, j, n) || link(a[j], n)) {
    assert forall|n: Seq<char>| #[trigger] links(a, j + 1, n) == (links(a, j, n) || link(a[j], n)) by { if links(a, j, n) { let i = choose|i: int| 0 <= i < j && link(#[trigger] a[i], n); assert(link(a[i], n)); } if link(a[j], n) { assert(link(a[j], n)); } }
}
pub proof fn lemma_linked(v: Seq<Seq<(Seq<char>, Seq<char>)>>, k: int) requires 0 <= k < v.len() ensures forall|n: Seq<char>| #[trigger] linked(v, k + 1, n) == (linked(v, k, n) || links(v[k], v[k].len() as int, n)) {
    assert forall|n: Seq<char>| #[trigger] linked(v, k + 1, n) == (linked(v, k, n) || links(v[k], v[k].len() as int, n)) by { if linked(v, k, n) { let i = choose|i: int| 0 <= i < k && links(#[trigger] v[i], v[i].len() as int, n); assert(links(v[i], v[i].len() as int, n)); } if links(v[k], v[k].len() as int, n) { assert(links(v[k], v[k].len() as int, n)); } }
}
pub proof fn lemma_inv_push(v: Seq<String>, w: Seq<String>, x: String) requires w == v.push(x) ensures forall|n: Seq<char>| #[trigger] inv(w, n) == (inv(v, n) || x@ == n) {
    assert forall|n: Seq<char>| #[trigger] inv(w, n) == (inv(v, n) || x@ == n) by { if inv(v, n) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == n; assert(w[i]@ == n); } if x@ == n { assert(w[v.len() as int]@ == n); } if inv(w, n) && x@ != n { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i])@ == n; assert(v[i]@ == n); } }
}
//@fn core/package_validation/rules.rs|extract_rel_reference_ids
//@ opt: streq, forown, forpath
//@ sub: scan_fragment(slide_xml, &["p", "a", "r", "c"]).unwrap_or_default() =>> vx_ftags(slide_xml)
//@ sub: ids.sort(); =>> vx_sort(&mut ids);
//@ sub: ids.push(id); =>> ids.push(id.clone());
//@ sub: ids.dedup(); =>> vx_dedup(&mut ids);
//@ loop 0 inv: vx_s0@.len() == pairs(slide_xml@).len(), forall|i: int| 0 <= i < vx_s0@.len() ==> pairv((#[trigger] vx_s0@[i]).attributes@) == pairs(slide_xml@)[i], forall|n: Seq<char>| #[trigger] inv(ids@, n) <==> linked(pairs(slide_xml@), vx_i0 as int, n)
//@ loop 0 begin: let ghost vx_a = ids@; proof { lemma_linked(pairs(slide_xml@), vx_i0 as int); }
//@ loop 1 pre: let ghost vx_p = pairv(tag.attributes@); proof { assert(vx_p == pairs(slide_xml@)[vx_i0 - 1]); }
//@ loop 1 inv: vx_p == pairv(vx_s1@), forall|n: Seq<char>| #[trigger] inv(ids@, n) <==> inv(vx_a, n) || links(vx_p, vx_i1 as int, n)
//@ loop 1 begin: let ghost vx_b = ids@; proof { lemma_links(vx_p, vx_i1 as int); assert(vx_p[vx_i1 as int] == (vx_s1@[vx_i1 as int].0@, vx_s1@[vx_i1 as int].1@)); }
//@ loop 1 end: proof { if ids@.len() > vx_b.len() { lemma_inv_push(vx_b, ids@, ids@.last()); } }
//@ ensures: forall|n: Seq<char>| #[trigger] inv(vx_ret@, n) <==> refers(slide_xml@, n)
//@end
pub open spec fn srels(n: Seq<char>) -> Seq<char> { replaced(n, S"ppt/slides/", S"ppt/slides/_rels/") + S".rels" }
pub open spec fn dangling(p: Pk, s: Seq<RelV>, id: Seq<char>) -> bool { match named(s, s.len() as int, id) { Some(r) => lost(p, r), None => true } }
pub open spec fn dangles(p: Pk, s: Seq<RelV>, ids: Seq<Seq<char>>, k: int) -> bool { exists|i: int| 0 <= i < k && dangling(p, s, #[trigger] ids[i]) }
pub open spec fn repeats(ids: Seq<Seq<char>>, k: int) -> bool { exists|j: int| 0 <= j < k && hasv(ids, j, #[trigger] ids[j]) }
pub open spec fn shape_ids(x: Seq<char>) -> Seq<Seq<char>> { attrs(x, S"p:cNvPr", S"id") }
pub open spec fn strays(p: Pk, s: Seq<RelV>, x: Seq<char>) -> bool { exists|n: Seq<char>| #[trigger] refers(x, n) && dangling(p, s, n) }
pub open spec fn slide_bad(p: Pk, n: Seq<char>) -> bool { p.texts.dom().contains(n) && (strays(p, rels_of(p, srels(n)), p.texts[n]) || repeats(shape_ids(p.texts[n]), shape_ids(p.texts[n]).len() as int)) }
pub open spec fn bad_slide(p: Pk, e: Ev) -> bool { at(e, C::Slide) && p.names.contains(e.path->Some_0) && is_slide(e.path->Some_0) && slide_bad(p, e.path->Some_0) }
pub proof fn lemma_strays(p: Pk, s: Seq<RelV>, x: Seq<char>, v: Seq<String>) requires forall|n: Seq<char>| #[trigger] inv(v, n) <==> refers(x, n) ensures dangles(p, s, sv(v), v.len() as int) == strays(p, s, x) {
    if dangles(p, s, sv(v), v.len() as int) { let i = choose|i: int| 0 <= i < v.len() && dangling(p, s, #[trigger] sv(v)[i]); assert(v[i]@ == sv(v)[i]); assert(inv(v, v[i]@)); assert(refers(x, v[i]@)); }
    if strays(p, s, x) { let n = choose|n: Seq<char>| #[trigger] refers(x, n) && dangling(p, s, n); assert(inv(v, n)); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == n; assert(sv(v)[i] == n); }
}
pub proof fn lemma_dangles(p: Pk, s: Seq<RelV>, ids: Seq<Seq<char>>, k: int) requires 0 <= k < ids.len() ensures dangles(p, s, ids, k + 1) == (dangles(p, s, ids, k) || dangling(p, s, ids[k])) { if dangles(p, s, ids, k) { let i = choose|i: int| 0 <= i < k && dangling(p, s, #[trigger] ids[i]); assert(dangling(p, s, ids[i])); } }
pub proof fn lemma_repeats(ids: Seq<Seq<char>>, k: int) requires 0 <= k < ids.len() ensures repeats(ids, k + 1) == (repeats(ids, k) || hasv(ids, k, ids[k])), forall|n: Seq<char>| #![trigger hasv(ids, k + 1, n)] hasv(ids, k + 1, n) == (hasv(ids, k, n) || n == ids[k]) {
    if repeats(ids, k) { let j = choose|j: int| 0 <= j < k && hasv(ids, j, #[trigger] ids[j]); assert(hasv(ids, j, ids[j])); }
    assert forall|n: Seq<char>| #![trigger hasv(ids, k + 1, n)] hasv(ids, k + 1, n) == (hasv(ids, k, n) || n == ids[k]) by { if hasv(ids, k, n) { let i = choose|i: int| 0 <= i < k && #[trigger] ids[i] == n; assert(ids[i] == n); } }
}
//@fn core/package_validation/rules.rs|check_slide_relationships
//@ opt: noinline, streq
//@ sub: slide_path.replace("ppt/slides/", "ppt/slides/_rels/") + ".rels" =>> vx_replaced(&slide_path, "ppt/slides/", "ppt/slides/_rels/", ".rels")
//@ sub: let rel_map: HashMap<String, (String, String)> = rels.iter().map(|r| (r.id.clone(), (r.resolved.clone(), r.target_mode.clone()))).collect(); =>> let rel_map = vx_rel_map(rels);
//@ sub: rel_map.get(&rid) =>> rel_map.get2(&rid)
//@ sub: extract_rel_reference_ids(&slide_xml) =>> &extract_rel_reference_ids(&slide_xml)
//@ sub: extract_attr_values(&slide_xml, "p:cNvPr", "id") =>> &extract_attr_values(&slide_xml, "p:cNvPr", "id")
//@ sub: let mut shape_ids: HashSet<String> = HashSet::new(); =>> let mut shape_ids = VxSet::new();
//@ begin: let ghost vx_o = *report; let ghost vx_p = ctx.pk();
//@ loop 0 inv: tyv::<String>(vx_r0), vx_s0@ == ctx.names@, *ctx == *old(ctx), archive@ == old(archive)@, forall|n: Seq<char>| #[trigger] among(vx_r0@, vx_r0@.len() as int, n) <==> among(ctx.names@, vx_i0 as int, n) && is_slide(n)
//@ loop 0 begin: let ghost vx_v = vx_r0@; proof { lemma_among(ctx.names@, vx_i0 as int); }
//@ loop 0 end: proof { if vx_r0@.len() > vx_v.len() { assert(vx_r0@.drop_last() =~= vx_v); lemma_pushed(vx_v, vx_r0@); } }
//@ loop 1 inv: vx_s1@ == slide_paths@, *ctx == *old(ctx), archive@ == old(archive)@, ctx.pk() == archive@, ctx.pk() == vx_p, forall|e: Ev| #![trigger says(*report, e)] #![trigger says(vx_o, e)] says(*report, e) <==> says(vx_o, e) || at(e, C::Slide) && among(slide_paths@, vx_i1 as int, e.path->Some_0) && slide_bad(vx_p, e.path->Some_0)
//@ loop 1 begin: let ghost vx_m = *report; proof { lemma_among(slide_paths@, vx_i1 as int); }
//@ loop 2 inv: ctx.pk() == vx_p, *ctx == *old(ctx), archive@ == old(archive)@, rel_map@ == rels_of(vx_p, srels(slide_path@)), forall|e: Ev| #![trigger says(*report, e)] #![trigger says(vx_m, e)] says(*report, e) <==> says(vx_m, e) || e == er(C::Slide, slide_path@) && dangles(vx_p, rel_map@, sv(vx_s2@), vx_i2 as int)
//@ loop 2 pre: proof { assert(rel_map@ =~= rels_of(vx_p, srels(slide_path@))); lemma_strays(vx_p, rel_map@, slide_xml@, vx_s2@); }
//@ loop 2 begin: proof { lemma_dangles(vx_p, rel_map@, sv(vx_s2@), vx_i2 as int); assert(vx_s2@[vx_i2 as int]@ == sv(vx_s2@)[vx_i2 as int]); }
//@ loop 3 inv: ctx.pk() == vx_p, *ctx == *old(ctx), archive@ == old(archive)@, strs(vx_s3@, vx_n), vx_n == attrs(slide_xml@, S"p:cNvPr", S"id"), forall|n: Seq<char>| #![trigger shape_ids@.contains(n)] #![trigger hasv(vx_n, vx_i3 as int, n)] shape_ids@.contains(n) <==> hasv(vx_n, vx_i3 as int, n), forall|e: Ev| #![trigger says(*report, e)] #![trigger says(vx_q, e)] says(*report, e) <==> says(vx_q, e) || e == er(C::Slide, slide_path@) && repeats(vx_n, vx_i3 as int)
//@ loop 3 pre: let ghost vx_q = *report; let ghost vx_n = attrs(slide_xml@, S"p:cNvPr", S"id");
//@ loop 3 begin: proof { lemma_repeats(vx_n, vx_i3 as int); assert(vx_s3@[vx_i3 as int]@ == vx_n[vx_i3 as int]); }
//@ requires: old(ctx).ok(), old(archive)@ == old(ctx).pk()
//@ ensures: gains(*old(report), *final(report), |e: Ev| bad_slide(old(ctx).pk(), e)), *final(ctx) == *old(ctx), final(archive)@ == old(archive)@
//@end
// ---- everything that is wrong, and nothing else
pub open spec fn wrong(c: PackageContext, e: Ev) -> bool {
    let p = c.pk();
    bad_required(p, e) || bad_xml(p, e) || bad_target(p, e) || bad_type(p, e) || bad_pres(c, e) || bad_master(p, e) || bad_theme(p, e) || bad_chart(p, e) || bad_slide(p, e) || bad_notes(p, e) || bad_handout(p, e) || bad_notes_master(p, e)
}
pub proof fn lemma_errors(c: PackageContext, e: Ev) ensures wrong(c, e) ==> e.sev == ValidationSeverity::Error && e.path is Some {}
// the verdict is good exactly where nothing is wrong
pub proof fn lemma_verdict(r: PackageValidationReport, c: PackageContext) requires forall|e: Ev| #[trigger] says(r, e) <==> wrong(c, e)
    ensures clean(r.issues@, r.issues@.len() as int) <==> !(exists|e: Ev| #[trigger] wrong(c, e)), clean(r.issues@, r.issues@.len() as int) <==> r.issues@.len() == 0, errs(r.issues@, ValidationSeverity::Error, r.issues@.len() as int) == r.issues@.len()
{
    assert forall|i: int| 0 <= i < r.issues@.len() implies (#[trigger] r.issues@[i]).severity == ValidationSeverity::Error by { assert(says(r, ev(r.issues@[i]))); lemma_errors(c, ev(r.issues@[i])); }
    if exists|e: Ev| #[trigger] wrong(c, e) { let e = choose|e: Ev| #[trigger] wrong(c, e); assert(says(r, e)); let i = choose|i: int| 0 <= i < r.issues@.len() && ev(#[trigger] r.issues@[i]) == e; assert(r.issues@[i].severity == ValidationSeverity::Error); }
    if !clean(r.issues@, r.issues@.len() as int) { let i = choose|i: int| 0 <= i < r.issues@.len() && (#[trigger] r.issues@[i]).severity == ValidationSeverity::Error; assert(says(r, ev(r.issues@[i]))); assert(wrong(c, ev(r.issues@[i]))); }
    if r.issues@.len() > 0 { assert(r.issues@[0].severity == ValidationSeverity::Error); }
    lemma_errs(r.issues@, r.issues@.len() as int);
}
pub proof fn lemma_errs(v: Seq<PackageValidationIssue>, k: int) requires 0 <= k <= v.len(), forall|i: int| 0 <= i < k ==> (#[trigger] v[i]).severity == ValidationSeverity::Error ensures errs(v, ValidationSeverity::Error, k) == k decreases k { if k > 0 { lemma_errs(v, k - 1); } }
pub open spec fn tells(r: PackageValidationReport, c: PackageContext) -> bool { c.ok() && forall|e: Ev| #[trigger] says(r, e) <==> wrong(c, e) }
#[verifier::external_body] pub fn vx_report() -> (r: PackageValidationReport) ensures r.issues@.len() == 0 { unimplemented!() }
//@fn core/package_validation/rules.rs|validate_package
//@ sub: PackageValidationReport::default() =>> vx_report()
//@ end: proof { assert(tells(vx_r, ctx)); }
//@ ensures: exists|c: PackageContext| c.pk() == old(archive)@ && #[trigger] tells(vx_ret, c)
//@end
#[verifier::external_body] pub struct VxCursor { c: u8 }
impl Read for VxCursor {}
impl Seek for VxCursor {}
impl VxCursor { pub uninterp spec fn bytes(&self) -> Seq<u8>; }
#[verifier::external_body] pub fn vx_cursor(b: &[u8]) -> (r: VxCursor) ensures r.bytes() == b@ { unimplemented!() }
// what a ZIP archive of these bytes holds
pub uninterp spec fn archive_of(b: Seq<u8>) -> Option<Pk>;
#[verifier::external_body] pub fn vx_archive(c: VxCursor) -> (r: Result<ZipArchive<VxCursor>, VxErr>) ensures r is Ok <==> archive_of(c.bytes()) is Some, r is Ok ==> r->Ok_0@ == archive_of(c.bytes())->Some_0 { unimplemented!() }
impl VxFmt for VxErr { open spec fn disp(&self) -> Seq<char> { Seq::<char>::empty() } #[verifier::external_body] fn vx_fmt(&self, s: &mut String) {} }
//@fn core/package_validation/rules.rs|validate_package_bytes
//@ sub: PackageValidationReport::default() =>> vx_report()
//@ sub: std::io::Cursor::new(bytes) =>> vx_cursor(bytes)
//@ sub: ZipArchive::new(cursor) =>> vx_archive(cursor)
//@ ensures: match archive_of(bytes@) { Some(p) => exists|c: PackageContext| c.pk() == p && #[trigger] tells(vx_ret, c), None => says(vx_ret, Ev { cat: C::Xml, sev: ValidationSeverity::Error, path: None }) && vx_ret.issues@.len() == 1 }
//@end
// ---- where a relationship leads
pub open spec fn step(parts: Seq<Seq<char>>, seg: Seq<char>) -> Seq<Seq<char>> { if seg == S".." { if parts.len() > 0 { parts.drop_last() } else { parts } } else if seg == S"." || seg == Seq::<char>::empty() { parts } else { parts.push(seg) } }
pub open spec fn walk(parts: Seq<Seq<char>>, segs: Seq<Seq<char>>, k: int) -> Seq<Seq<char>> decreases k { if k <= 0 { parts } else { step(walk(parts, segs, k - 1), segs[k - 1]) } }
// a text cut at the slashes
pub uninterp spec fn cut(s: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn refs(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|x: &str| x@) }
pub trait VxSplit { spec fn xv(&self) -> Seq<char>; fn vx_segments(&self) -> (r: Vec<&str>) ensures refs(r@) == cut(self.xv()); fn vx_unslashed(&self) -> (r: &str) ensures r@ == stripall(self.xv(), seq!['/']); }
impl VxSplit for str { open spec fn xv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_segments(&self) -> (r: Vec<&str>) { self.split('/').collect() } #[verifier::external_body] fn vx_unslashed(&self) -> (r: &str) { self.trim_start_matches('/') } }
pub open spec fn joined(v: Seq<Seq<char>>, sep: Seq<char>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::<char>::empty() } else if n == 1 { v[0] } else { joined(v, sep, n - 1) + sep + v[n - 1] } }
pub trait VxJoin { spec fn jv(&self) -> Seq<Seq<char>>; fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == joined(self.jv(), sep@, self.jv().len() as int); }
impl VxJoin for Vec<&str> { open spec fn jv(&self) -> Seq<Seq<char>> { refs(self@) } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { self.join(sep) } }
pub open spec fn leads_to(base: Seq<char>, target: Seq<char>) -> Seq<char> {
    if target.len() > 0 && target[0] == '/' { stripall(target, seq!['/']) } else {
        let b = if base.len() == 0 { Seq::<Seq<char>>::empty() } else { cut(base) };
        joined(walk(b, cut(target), cut(target).len() as int), S"/", walk(b, cut(target), cut(target).len() as int).len() as int)
    }
}
//@fn core/package_validation/rels.rs|resolve_rel_target
//@ opt: streq, noinline
//@ sub: target.trim_start_matches('/') =>> target.vx_unslashed()
//@ sub: base_dir.split('/').collect() =>> base_dir.vx_segments()
//@ sub: target.split('/') =>> target.vx_segments()
//@ begin: let ghost vx_b = if base_dir@.len() == 0 { Seq::<Seq<char>>::empty() } else { cut(base_dir@) };
//@ loop 0 inv: refs(vx_s0@) == cut(target@), refs(parts@) == walk(vx_b, cut(target@), vx_i0 as int)
//@ loop 0 begin: let ghost vx_q = parts@; let ghost vx_k = vx_i0 as int; proof { assert(refs(vx_s0@)[vx_k] == vx_s0@[vx_k]@); }
//@ loop 0 end: proof { assert(refs(parts@) =~= step(refs(vx_q), cut(target@)[vx_k])); }
//@ loop 0 pre: proof { assert(refs(parts@) =~= vx_b); }
//@ ensures: vx_ret@ == leads_to(base_dir@, target@)
//@end
pub open spec fn tval(t: TagV, n: Seq<char>) -> Seq<char> { if t.attrs.dom().contains(n) { t.attrs[n] } else { Seq::<char>::empty() } }
pub open spec fn relt(t: TagV, base: Seq<char>) -> RelV { RelV { id: tval(t, S"Id"), target: tval(t, S"Target"), resolved: leads_to(base, tval(t, S"Target")), mode: tval(t, S"TargetMode") } }
pub open spec fn relk(v: Seq<TagV>, base: Seq<char>, k: int) -> Seq<RelV> decreases k { if k <= 0 { Seq::<RelV>::empty() } else if v[k - 1].name == S"Relationship" { relk(v, base, k - 1).push(relt(v[k - 1], base)) } else { relk(v, base, k - 1) } }
#[verifier::external_body] pub fn vx_value(t: &XmlTag, n: &str) -> (r: String) ensures r@ == tval(tagv(*t), n@) { unimplemented!() }
//@fn core/package_validation/context.rs|parse_relationships
//@ opt: streq
//@ sub: scan_tags(rels_xml).unwrap_or_default().into_iter() =>> vx_tags(rels_xml).iter()
//@ sub: let value = |name| element.attr(name).unwrap_or_default().to_string(); =>>
//@ sub: value("Id") =>> vx_value(&element, "Id")
//@ sub: value("Target") =>> vx_value(&element, "Target")
//@ sub: value("TargetMode") =>> vx_value(&element, "TargetMode")
//@ loop 0 inv: tyv::<Relationship>(vx_r0), isrels(vx_r0@, relk(tags(rels_xml@), base_dir@, vx_i0 as int)), vx_s0@.len() == tags(rels_xml@).len(), forall|i: int| 0 <= i < vx_s0@.len() ==> tagv(#[trigger] vx_s0@[i]) == tags(rels_xml@)[i]
//@ ensures: isrels(vx_ret@, relk(tags(rels_xml@), base_dir@, tags(rels_xml@).len() as int))
//@end
// ---- field validators
pub enum PptxError { NotFound(String), InvalidValue(String), InvalidState(String), InvalidXml(String) }
#[verifier::external_body] pub fn vx_message() -> String { unimplemented!() }
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_trim(s: &str) -> (r: &str) ensures r@ == trimmed(s@) { s.trim() }
//@fn core/validation.rs|validate_index
//@ sig: (vx_ret: Result<(), PptxError>)
//@ sub: messages::index_out_of_range(field, index, count,) =>> vx_message()
//@ ensures: vx_ret is Ok <==> index < count, vx_ret is Err ==> vx_ret->Err_0 is NotFound
//@end
//@fn core/validation.rs|validate_positive
//@ sig: (vx_ret: Result<(), PptxError>)
//@ sub: messages::must_be_positive(field) =>> vx_message()
//@ ensures: vx_ret is Ok <==> value > 0, vx_ret is Err ==> vx_ret->Err_0 is InvalidValue
//@end
//@fn core/validation.rs|validate_non_empty
//@ sig: (vx_ret: Result<(), PptxError>)
//@ sub: messages::must_not_be_empty(field) =>> vx_message()
//@ ensures: vx_ret is Ok <==> items@.len() > 0, vx_ret is Err ==> vx_ret->Err_0 is InvalidState
//@end
//@fn core/validation.rs|validate_non_empty_str
//@ sig: (vx_ret: Result<(), PptxError>)
//@ sub: value.trim() =>> vx_trim(value)
//@ sub: messages::must_not_be_empty(field) =>> vx_message()
//@ ensures: vx_ret is Ok <==> trimmed(value@).len() > 0, vx_ret is Err ==> vx_ret->Err_0 is InvalidValue
//@end
//%extras
} // verus!
fn main() {}
