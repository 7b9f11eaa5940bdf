//@include prelude.rs
//@include esc.inc
verus! {
//@type SlideSection
//@type SectionManager

pub open spec fn covers(s: SlideSection, k: int) -> bool { s.first_slide <= k < s.first_slide + s.slide_count && k <= usize::MAX }
pub open spec fn overlap(a: SlideSection, b: SlideSection) -> bool { exists|k: int| covers(a, k) && covers(b, k) }
pub open spec fn disjoint(v: Seq<SlideSection>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> !overlap(#[trigger] v[i], #[trigger] v[j]) }
pub open spec fn ordered(v: Seq<SlideSection>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).first_slide <= (#[trigger] v[j]).first_slide }
// every slide is in at most one section, sections are listed in slide order
pub open spec fn wf(m: SectionManager) -> bool { disjoint(m.sections@) && ordered(m.sections@) }
pub open spec fn free(v: Seq<SlideSection>, s: SlideSection) -> bool { forall|i: int| 0 <= i < v.len() ==> !overlap(#[trigger] v[i], s) }
pub open spec fn same(a: SlideSection, name: Seq<char>, f: usize, n: usize) -> bool { a.name@ == name && a.first_slide == f && a.slide_count == n }
pub open spec fn last(s: SlideSection) -> int { if s.slide_count == 0 { s.first_slide as int } else if s.first_slide + s.slide_count - 1 > usize::MAX { usize::MAX as int } else { s.first_slide + s.slide_count - 1 } }

//@fn SlideSection::new
//@ ensures: same(vx_ret, name@, first_slide, slide_count)
//@end
//@fn SlideSection::last_slide
//@ ensures: vx_ret == last(*self)
//@end
//@fn SlideSection::contains_slide
//@ ensures: vx_ret == covers(*self, slide_index as int)
//@end
//@fn sections_overlap
//@ optional: yes
//@ ensures: vx_ret == overlap(*a, *b)
//@ end: proof { let k = if a.first_slide >= b.first_slide { a.first_slide as int } else { b.first_slide as int }; if vx_r { assert(covers(*a, k) && covers(*b, k)); } }
//@end
//@fn SectionManager::add_section
//@ requires: wf(*old(self))
//@ ensures:
//@   wf(*final(self)),
//@   vx_ret is Ok <==> (forall|s: SlideSection| same(s, name@, first_slide, slide_count) ==> free(old(self).sections@, s)),
//@   vx_ret is Err ==> final(self).sections@ == old(self).sections@,
//@   vx_ret is Ok ==> added(old(self).sections@, final(self).sections@, name@, first_slide, slide_count),
//@ begin: let ghost vx_old = self.sections@; let ghost mut vx_new: SlideSection = arbitrary();
//@ loop 0 inv: self.sections@ == vx_old, wf(*self), vx_s0@ == vx_old, same(new_section, name@, first_slide, slide_count), forall|i: int| 0 <= i < vx_i0 ==> !overlap(#[trigger] vx_old[i], new_section)
//@ loop 0 post: proof { vx_new = new_section; assert(free(vx_old, new_section)); assert forall|s: SlideSection| same(s, name@, first_slide, slide_count) implies free(vx_old, s) by { lemma_same(vx_old, new_section, s); } }
//@ loop 1 inv: self.sections@ == vx_old.push(vx_new), forall|i: int| 0 <= i < vx_i1 ==> #[trigger] vx_r1@[i] == vx_old.push(vx_new)[i].first_slide, vx_s1@ == self.sections@
//@ end: proof { lemma_sorted(vx_old, vx_new, self.sections@); }
//@end
pub open spec fn added(o: Seq<SlideSection>, n: Seq<SlideSection>, name: Seq<char>, f: usize, c: usize) -> bool {
    // exactly one section more: the new one; the others untouched
    n.len() == o.len() + 1 && exists|p: Seq<int>| #[trigger] is_perm(p, n.len() as int)
        && forall|i: int| 0 <= i < n.len() ==> (if p[i] < o.len() { #[trigger] n[i] == o[p[i]] } else { same(n[i], name, f, c) })
}
pub proof fn lemma_same(v: Seq<SlideSection>, a: SlideSection, b: SlideSection)
    requires free(v, a), a.first_slide == b.first_slide, a.slide_count == b.slide_count
    ensures free(v, b)
{
    assert forall|i: int| 0 <= i < v.len() implies !overlap(#[trigger] v[i], b) by {
        if overlap(v[i], b) { let k = choose|k: int| covers(v[i], k) && covers(b, k); assert(covers(v[i], k) && covers(a, k)); }
    }
}
pub proof fn lemma_sorted(o: Seq<SlideSection>, x: SlideSection, n: Seq<SlideSection>)
    requires disjoint(o), free(o, x),
        n.len() == o.len() + 1,
        exists|p: Seq<int>| #[trigger] is_perm(p, o.len() as int + 1) && (forall|i: int| 0 <= i < p.len() ==> #[trigger] n[i] == o.push(x)[p[i]])
            && (forall|i: int, j: int| 0 <= i < j < p.len() ==> o.push(x)[#[trigger] p[i]].first_slide <= o.push(x)[#[trigger] p[j]].first_slide)
    ensures disjoint(n), ordered(n), added(o, n, x.name@, x.first_slide, x.slide_count)
{
    let p = choose|p: Seq<int>| #[trigger] is_perm(p, o.len() as int + 1) && (forall|i: int| 0 <= i < p.len() ==> #[trigger] n[i] == o.push(x)[p[i]])
            && (forall|i: int, j: int| 0 <= i < j < p.len() ==> o.push(x)[#[trigger] p[i]].first_slide <= o.push(x)[#[trigger] p[j]].first_slide);
    let q = o.push(x);
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies !overlap(#[trigger] n[i], #[trigger] n[j]) by {
        assert(p[i] != p[j]);
        let a = p[i]; let b = p[j];
        if overlap(q[a], q[b]) {
            let k = choose|k: int| covers(q[a], k) && covers(q[b], k);
            if a < o.len() && b < o.len() {
                if a < b { assert(overlap(o[a], o[b])); } else { assert(overlap(o[b], o[a])); }
            } else if a < o.len() { assert(overlap(o[a], x)); } else { assert(overlap(o[b], x)); }
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies (#[trigger] n[i]).first_slide <= (#[trigger] n[j]).first_slide by { assert(p[i] != p[j]); }
}
pub proof fn lemma_masked(v: Seq<SlideSection>, keep: Seq<bool>, n: int)
    requires 0 <= n <= v.len(), v.len() == keep.len(), disjoint(v), ordered(v)
    ensures disjoint(masked(v, keep, n)), ordered(masked(v, keep, n)),
        forall|x: SlideSection| #[trigger] masked(v, keep, n).contains(x) <==> (exists|i: int| 0 <= i < n && keep[i] && #[trigger] v[i] == x),
        masked(v, keep, n).len() <= n, masked(v, keep, n).len() < n <==> (exists|i: int| 0 <= i < n && !#[trigger] keep[i]),
        forall|k: int| 0 <= k < masked(v, keep, n).len() ==> exists|i: int| 0 <= i < n && keep[i] && #[trigger] v[i] == #[trigger] masked(v, keep, n)[k]
    decreases n
{
    if n > 0 {
        lemma_masked(v, keep, n - 1);
        let a = masked(v, keep, n - 1);
        let b = masked(v, keep, n);
        if keep[n - 1] {
            assert(b == a.push(v[n - 1]));
            assert(b[a.len() as int] == v[n - 1]);
            assert forall|x: SlideSection| #[trigger] b.contains(x) <==> (exists|i: int| 0 <= i < n && keep[i] && #[trigger] v[i] == x) by {
                if b.contains(x) {
                    let k = choose|k: int| 0 <= k < b.len() && b[k] == x;
                    if k < a.len() { assert(a[k] == x); assert(a.contains(x)); }
                }
                if exists|i: int| 0 <= i < n && keep[i] && #[trigger] v[i] == x {
                    let i = choose|i: int| 0 <= i < n && keep[i] && #[trigger] v[i] == x;
                    if i < n - 1 { assert(a.contains(x)); let k = choose|k: int| 0 <= k < a.len() && a[k] == x; assert(b[k] == x); }
                }
            }
            assert forall|k: int| 0 <= k < b.len() implies exists|i: int| 0 <= i < n && keep[i] && #[trigger] v[i] == #[trigger] b[k] by {
                if k < a.len() { assert(b[k] == a[k]); let i = choose|i: int| 0 <= i < n - 1 && keep[i] && #[trigger] v[i] == a[k]; assert(v[i] == b[k]); }
            }
            assert forall|i: int, j: int| 0 <= i < j < b.len() implies !overlap(#[trigger] b[i], #[trigger] b[j]) by {
                if j < a.len() { assert(a[i] == b[i] && a[j] == b[j]); } else {
                    assert(b[i] == a[i]);
                    let q = choose|q: int| 0 <= q < n - 1 && keep[q] && #[trigger] v[q] == a[i];
                    assert(!overlap(v[q], v[n - 1]));
                }
            }
            assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).first_slide <= (#[trigger] b[j]).first_slide by {
                if j < a.len() { assert(a[i] == b[i] && a[j] == b[j]); } else {
                    assert(b[i] == a[i]);
                    let q = choose|q: int| 0 <= q < n - 1 && keep[q] && #[trigger] v[q] == a[i];
                    assert(v[q].first_slide <= v[n - 1].first_slide);
                }
            }
            if exists|i: int| 0 <= i < n && !#[trigger] keep[i] { let i = choose|i: int| 0 <= i < n && !#[trigger] keep[i]; assert(i < n - 1); }
        } else {
            assert(!keep[n - 1]);
        }
    }
}
//@fn SectionManager::new
//@ sub: Self :: default () =>> SectionManager { sections : Vec :: new () }
//@ ensures: vx_ret.sections@.len() == 0, wf(vx_ret)
//@end
//@fn SectionManager::remove_section
//@ opt: streq
//@ requires: wf(*old(self))
//@ ensures:
//@   wf(*final(self)),
//@   vx_ret == (exists|i: int| 0 <= i < old(self).sections@.len() && (#[trigger] old(self).sections@[i]).name@ == name@),
//@   forall|x: SlideSection| #[trigger] final(self).sections@.contains(x) <==> (old(self).sections@.contains(x) && x.name@ != name@),
//@ begin: let ghost vx_old = self.sections@; let ghost mut vx_keep: Seq<bool> = Seq::empty();
//@ loop 0 inv: vx_s0@ == vx_old, self.sections@ == vx_old, forall|i: int| 0 <= i < vx_i0 ==> #[trigger] vx_r0@[i] == !(vx_old[i].name@ == name@)
//@ loop 0 post: proof { vx_keep = vx_r0@; lemma_masked(vx_old, vx_keep, vx_old.len() as int); }
//@ end: proof {
//@    if exists|i: int| 0 <= i < vx_old.len() && (#[trigger] vx_old[i]).name@ == name@ { let i = choose|i: int| 0 <= i < vx_old.len() && (#[trigger] vx_old[i]).name@ == name@; assert(!vx_keep[i]); }
//@    assert forall|x: SlideSection| #[trigger] self.sections@.contains(x) <==> (vx_old.contains(x) && x.name@ != name@) by {
//@       if vx_old.contains(x) && x.name@ != name@ { let i = choose|i: int| 0 <= i < vx_old.len() && vx_old[i] == x; assert(vx_keep[i] && vx_old[i] == x); }
//@       if self.sections@.contains(x) { let i = choose|i: int| 0 <= i < vx_old.len() && vx_keep[i] && #[trigger] vx_old[i] == x; }
//@    } }
//@end
//@fn SectionManager::get_section
//@ opt: streq
//@ ensures:
//@   vx_ret is Some <==> exists|i: int| 0 <= i < self.sections@.len() && (#[trigger] self.sections@[i]).name@ == name@,
//@   vx_ret is Some ==> vx_ret->Some_0.name@ == name@ && self.sections@.contains(*vx_ret->Some_0)
//@ loop 0 inv: vx_s0@ == self.sections@, vx_r0 == None::<&SlideSection> ==> (forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] self.sections@[i]).name@ != name@), vx_r0 is Some ==> (vx_i0 < vx_s0@.len() && *vx_r0->Some_0 == self.sections@[vx_i0 as int] && vx_r0->Some_0.name@ == name@)
//@end
//@fn SectionManager::section_for_slide
//@ requires: wf(*self)
//@ ensures:
//@   vx_ret is Some <==> exists|i: int| 0 <= i < self.sections@.len() && covers(#[trigger] self.sections@[i], slide_index as int),
//@   vx_ret is Some ==> forall|i: int| 0 <= i < self.sections@.len() && covers(#[trigger] self.sections@[i], slide_index as int) ==> *vx_ret->Some_0 == self.sections@[i]
//@ loop 0 inv: wf(*self), vx_s0@ == self.sections@, vx_r0 == None::<&SlideSection> ==> (forall|i: int| 0 <= i < vx_i0 ==> !covers(#[trigger] self.sections@[i], slide_index as int)), vx_r0 is Some ==> (vx_i0 < vx_s0@.len() && *vx_r0->Some_0 == self.sections@[vx_i0 as int] && covers(self.sections@[vx_i0 as int], slide_index as int))
//@ loop 0 post: proof { if vx_r0 is Some { assert forall|i: int| 0 <= i < self.sections@.len() && covers(#[trigger] self.sections@[i], slide_index as int) implies i == vx_i0 by { if i < vx_i0 { assert(overlap(self.sections@[i], self.sections@[vx_i0 as int])); } if i > vx_i0 { assert(overlap(self.sections@[vx_i0 as int], self.sections@[i])); } } } }
//@end
//@fn SectionManager::len
//@ ensures: vx_ret == self.sections@.len()
//@end
//@fn SectionManager::is_empty
//@ ensures: vx_ret == (self.sections@.len() == 0)
//@end
//@fn SectionManager::clear
//@ ensures: final(self).sections@.len() == 0, wf(*final(self))
//@end
//@fn SectionManager::sections
//@ ensures: vx_ret@ == self.sections@
//@end
//@fn SectionManager::rename_section
//@ opt: streq
//@ requires: wf(*old(self))
//@ ensures:
//@   wf(*final(self)), final(self).sections@.len() == old(self).sections@.len(),
//@   vx_ret == (exists|i: int| 0 <= i < old(self).sections@.len() && (#[trigger] old(self).sections@[i]).name@ == old_name@),
//@   !vx_ret ==> final(self).sections@ == old(self).sections@,
//@   vx_ret ==> exists|k: int| 0 <= k < old(self).sections@.len() && (#[trigger] old(self).sections@[k]).name@ == old_name@ && same(final(self).sections@[k], new_name@, old(self).sections@[k].first_slide, old(self).sections@[k].slide_count) && forall|i: int| 0 <= i < old(self).sections@.len() && i != k ==> #[trigger] final(self).sections@[i] == old(self).sections@[i]
//@ begin: let ghost vx_old = self.sections@;
//@ loop 0 inv: vx_s0@ == vx_old, self.sections@ == vx_old, vx_r0 is None ==> (forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] vx_old[i]).name@ != old_name@), vx_r0 is Some ==> (vx_i0 < vx_old.len() && vx_r0->Some_0 == vx_i0 && vx_old[vx_i0 as int].name@ == old_name@)
//@ end: proof {
//@   assert forall|i: int, j: int| 0 <= i < j < self.sections@.len() implies !overlap(#[trigger] self.sections@[i], #[trigger] self.sections@[j]) by {
//@     if overlap(self.sections@[i], self.sections@[j]) { let k = choose|k: int| covers(self.sections@[i], k) && covers(self.sections@[j], k); assert(covers(vx_old[i], k) && covers(vx_old[j], k)); assert(overlap(vx_old[i], vx_old[j])); } } }
//@end
pub open spec fn isid(s: Seq<char>) -> bool { true }
// ---- what is written into presentation.xml --------------------------------------------------
#[verifier::external_body] pub fn vx_section_id(name: &String) -> (r: String) ensures isid(r@) { unimplemented!() }
pub open spec fn lo(x: int, y: int) -> int { if x < y { x } else { y } }
// the slides first..last of the section that exist: slide k is sldId 256 + k, each once, in order
pub open spec fn ids(a: int, b: int) -> Seq<char> decreases b - a {
    if b <= a { Seq::<char>::empty() } else { ids(a, b - 1) + "<p14:sldId id=\""@ + dec((256 + b - 1) as nat) + "\"/>"@ }
}
pub open spec fn sec_head(e: Seq<char>, g: Seq<char>) -> Seq<char> { "<p14:section name=\""@ + e + "\" id=\"{"@ + g + "}\">"@ + "<p14:sldIdLst>"@ }
pub open spec fn sec(s: SlideSection, e: Seq<char>, g: Seq<char>, total: int) -> Seq<char> {
    sec_head(e, g) + ids(s.first_slide as int, lo(s.first_slide + s.slide_count, total)) + "</p14:sldIdLst>"@ + "</p14:section>"@
}
pub open spec fn secs(v: Seq<SlideSection>, es: Seq<Seq<char>>, gs: Seq<Seq<char>>, total: int, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::<char>::empty() } else { secs(v, es, gs, total, n - 1) + sec(v[n - 1], es[n - 1], gs[n - 1], total) }
}
pub open spec fn esc_all(v: Seq<SlideSection>, es: Seq<Seq<char>>, n: int) -> bool { forall|i: int| 0 <= i < n ==> escaped(#[trigger] es[i], v[i].name@) }
pub proof fn lemma_secs_ext(v: Seq<SlideSection>, a: Seq<Seq<char>>, b: Seq<Seq<char>>, c: Seq<Seq<char>>, d: Seq<Seq<char>>, total: int, n: int)
    requires forall|i: int| 0 <= i < n ==> a[i] == c[i] && b[i] == d[i]
    ensures secs(v, a, b, total, n) == secs(v, c, d, total, n) decreases n
{ if n > 0 { lemma_secs_ext(v, a, b, c, d, total, n - 1); } }
pub open spec fn hd() -> Seq<char> { "<p:extLst><p:ext uri=\"{521415D9-36F7-43E2-AB2F-B90AF26B5E84}\"><p14:sectionLst xmlns:p14=\"http://schemas.microsoft.com/office/powerpoint/2010/main\">"@ }
pub open spec fn written(out: Seq<char>, v: Seq<SlideSection>, total: int) -> bool {
    exists|es: Seq<Seq<char>>, gs: Seq<Seq<char>>| #[trigger] esc_all(v, es, v.len() as int) && out == hd() + #[trigger] secs(v, es, gs, total, v.len() as int) + "</p14:sectionLst></p:ext></p:extLst>"@
}
pub proof fn reveal_refs()
    ensures "&amp;"@ == seq!['&','a','m','p',';'], "&lt;"@ == seq!['&','l','t',';'], "&gt;"@ == seq!['&','g','t',';'], "&quot;"@ == seq!['&','q','u','o','t',';'], "&apos;"@ == seq!['&','a','p','o','s',';']
{
    reveal_strlit("&amp;"); reveal_strlit("&lt;"); reveal_strlit("&gt;"); reveal_strlit("&quot;"); reveal_strlit("&apos;");
    assert("&amp;"@ =~= seq!['&','a','m','p',';']); assert("&lt;"@ =~= seq!['&','l','t',';']); assert("&gt;"@ =~= seq!['&','g','t',';']);
    assert("&quot;"@ =~= seq!['&','q','u','o','t',';']); assert("&apos;"@ =~= seq!['&','a','p','o','s',';']);
}
//@fn generator/slide_content/sections.rs|xml_escape
//@ optional: yes
//@ ensures: escaped(vx_ret@, s@)
//@ begin: broadcast use lemma_rep_step; proof { reveal_refs(); lemma_enc_id(s@, Set::empty()); }
//@end
//@fn SectionManager::to_xml
//@ sub: self . section_id ( i ) =>> vx_section_id ( & section . name )
//@ requires: wf(*self), total_slides <= usize::MAX - 256
//@ ensures:
//@   self.sections@.len() == 0 ==> vx_ret@.len() == 0,
//@   self.sections@.len() > 0 ==> written(vx_ret@, self.sections@, total_slides as int),
//@ begin: let ghost mut vx_es: Seq<Seq<char>> = Seq::empty(); let ghost mut vx_gs: Seq<Seq<char>> = Seq::empty();
//@ loop 0 inv: vx_s0@ == self.sections@, total_slides <= usize::MAX - 256, vx_es.len() == vx_i0, vx_gs.len() == vx_i0, esc_all(self.sections@, vx_es, vx_i0 as int), xml@ == hd() + secs(self.sections@, vx_es, vx_gs, total_slides as int, vx_i0 as int)
//@ loop 0 pre: proof { assert(xml@ =~= hd() + secs(self.sections@, vx_es, vx_gs, total_slides as int, 0)); }
//@ loop 0 begin: let ghost vx_o = xml@; let ghost vx_oe = vx_es; let ghost vx_og = vx_gs;
//@ loop 1 pre: let ghost vx_h = xml@; proof { assert(xml@ =~= vx_h + ids(section.first_slide as int, section.first_slide as int)); assert(exists|e: Seq<char>, g: Seq<char>| #[trigger] escaped(e, section.name@) && #[trigger] isid(g) && vx_h =~= vx_o + sec_head(e, g));
//@      let (e, g) = choose|e: Seq<char>, g: Seq<char>| #[trigger] escaped(e, section.name@) && #[trigger] isid(g) && vx_h =~= vx_o + sec_head(e, g); vx_es = vx_oe.push(e); vx_gs = vx_og.push(g); }
//@ loop 1 inv: total_slides <= usize::MAX - 256, end <= total_slides, vx_e1 == end, vx_b1 == section.first_slide, xml@ == vx_h + ids(section.first_slide as int, vx_i1 as int)
//@ loop 1 begin: let ghost vx_x = xml@;
//@ loop 1 end: proof { assert(xml@ =~= vx_h + ids(section.first_slide as int, vx_i1 as int)); }
//@ loop 0 end: proof {
//@   let n = vx_i0 as int; let s = self.sections@[n - 1];
//@   lemma_ids_empty(s.first_slide as int, lo(s.first_slide + s.slide_count, total_slides as int));
//@   lemma_secs_ext(self.sections@, vx_oe, vx_og, vx_es, vx_gs, total_slides as int, n - 1);
//@   assert(xml@ =~= vx_o + sec(s, vx_es[n - 1], vx_gs[n - 1], total_slides as int));
//@   assert(xml@ =~= hd() + secs(self.sections@, vx_es, vx_gs, total_slides as int, n)); }
//@end
pub proof fn lemma_ids_empty(a: int, b: int) ensures b <= a ==> ids(a, b) == Seq::<char>::empty() {}
//%extras
} // verus!
fn main() {}
