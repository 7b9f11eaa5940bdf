//@include prelude.rs
//@opt optmatch
verus! {
//@type MediaRegistry
//@type generator/images.rs|Image only filename
//@type generator/slide_content/content.rs|SlideContent only images

// what a picture holds and how its file is called: both are functions of the Image value (an assumption for
// pictures given by path: the file is not changed while the package is written)
pub uninterp spec fn img_bytes(i: Image) -> Option<Seq<u8>>;
pub uninterp spec fn img_ext(i: Image) -> Seq<char>;
impl Image {
    #[verifier::external_body] pub fn get_bytes(&self) -> (r: Option<Vec<u8>>) ensures (r is Some) == (img_bytes(*self) is Some), r is Some ==> r->Some_0@ == img_bytes(*self)->Some_0 { unimplemented!() }
    #[verifier::external_body] pub fn extension(&self) -> (r: String) ensures r@ == img_ext(*self) { unimplemented!() }
}

pub open spec fn ent(e: (Vec<u8>, String), b: Seq<u8>, x: Seq<char>) -> bool { e.0@ == b && e.1@ == x }
// no two entries hold the same picture: a picture is stored once
pub open spec fn wf(m: MediaRegistry) -> bool {
    forall|i: int, j: int| 0 <= i < j < m.entries@.len() ==> !(#[trigger] m.entries@[i].0@ == #[trigger] m.entries@[j].0@ && m.entries@[i].1@ == m.entries@[j].1@)
}
// number n (1-based) is the stored picture with these bytes and this extension
pub open spec fn holds(m: MediaRegistry, n: int, b: Seq<u8>, x: Seq<char>) -> bool { 1 <= n <= m.entries@.len() && ent(m.entries@[n - 1], b, x) }
pub open spec fn has(m: MediaRegistry, b: Seq<u8>, x: Seq<char>) -> bool { exists|n: int| #[trigger] holds(m, n, b, x) }
// entries are only ever appended: numbers handed out stay valid
pub open spec fn grows(a: MediaRegistry, b: MediaRegistry) -> bool { a.entries@.len() <= b.entries@.len() && forall|i: int| 0 <= i < a.entries@.len() ==> #[trigger] b.entries@[i] == a.entries@[i] }
pub open spec fn has_img(m: MediaRegistry, i: Image) -> bool { img_bytes(i) is Some ==> has(m, img_bytes(i)->Some_0, img_ext(i)) }
pub proof fn lemma_has_grows(a: MediaRegistry, b: MediaRegistry, x: Seq<u8>, e: Seq<char>) requires grows(a, b), has(a, x, e) ensures has(b, x, e) {
    let n = choose|n: int| #[trigger] holds(a, n, x, e); assert(holds(b, n, x, e));
}
//@fn MediaRegistry::lookup_number
//@ opt: streq
//@ requires: wf(*self)
//@ ensures:
//@   vx_ret is Some <==> has(*self, bytes@, ext@),
//@   vx_ret is Some ==> holds(*self, vx_ret->Some_0 as int, bytes@, ext@) && (forall|n: int| #[trigger] holds(*self, n, bytes@, ext@) ==> n == vx_ret->Some_0),
//@ loop 0 inv: vx_s0@ == self.entries@, vx_r0 is None ==> (forall|i: int| 0 <= i < vx_i0 ==> !ent(#[trigger] self.entries@[i], bytes@, ext@)), vx_r0 is Some ==> (vx_r0->Some_0 == vx_i0 && vx_i0 < vx_s0@.len() && ent(self.entries@[vx_i0 as int], bytes@, ext@))
//@ loop 0 post: proof { if vx_r0 is Some { assert(holds(*self, vx_i0 + 1, bytes@, ext@)); assert forall|n: int| #[trigger] holds(*self, n, bytes@, ext@) implies n == vx_i0 + 1 by { if n - 1 < vx_i0 { assert(self.entries@[n - 1].0@ == self.entries@[vx_i0 as int].0@); } if n - 1 > vx_i0 { assert(self.entries@[vx_i0 as int].0@ == self.entries@[n - 1].0@); } } } }
//@end
//@fn MediaRegistry::image_number
//@ requires: wf(*old(self)), old(self).entries@.len() < usize::MAX
//@ ensures:
//@   wf(*final(self)), grows(*old(self), *final(self)), holds(*final(self), vx_ret as int, bytes@, ext@),
//@   has(*old(self), bytes@, ext@) ==> final(self).entries@ == old(self).entries@,
//@   final(self).entries@.len() <= old(self).entries@.len() + 1,
//@   forall|b: Seq<u8>, x: Seq<char>| #[trigger] has(*final(self), b, x) ==> has(*old(self), b, x) || (b == bytes@ && x == ext@)
//@ begin: let ghost vx_o = *self; proof { assert forall|m: MediaRegistry, b: Seq<u8>, x: Seq<char>| m.entries@.len() <= vx_o.entries@.len() + 1 && grows(vx_o, m) && (m.entries@.len() == vx_o.entries@.len() + 1 ==> ent(m.entries@.last(), bytes@, ext@)) && #[trigger] has(m, b, x) implies has(vx_o, b, x) || (b == bytes@ && x == ext@) by { let n = choose|n: int| #[trigger] holds(m, n, b, x); if n <= vx_o.entries@.len() { assert(holds(vx_o, n, b, x)); } } }
//@ end: proof { assert(ent(self.entries@.last(), bytes@, ext@)); assert forall|i: int| 0 <= i < vx_o.entries@.len() implies !ent(#[trigger] vx_o.entries@[i], bytes@, ext@) by { if ent(vx_o.entries@[i], bytes@, ext@) { assert(holds(vx_o, i + 1, bytes@, ext@)); } } }
//@end
//@fn MediaRegistry::files
//@ ensures: vx_ret@ == self.entries@
//@end
//@fn MediaRegistry::extensions
//@ ensures: vx_ret@.len() == self.entries@.len(), forall|i: int| 0 <= i < vx_ret@.len() ==> (#[trigger] vx_ret@[i])@ == self.entries@[i].1@
//@ loop 0 inv: tyv::<String>(vx_r0), vx_s0@ == self.entries@, vx_r0@.len() == vx_i0, forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] vx_r0@[i])@ == self.entries@[i].1@
//@end
pub open spec fn stored(s: Seq<SlideContent>, i: int, j: int) -> bool { 0 <= i < s.len() && 0 <= j < s[i].images@.len() && img_bytes(s[i].images@[j]) is Some }
pub open spec fn none_extra(m: MediaRegistry, s: Seq<SlideContent>) -> bool {
    forall|b: Seq<u8>, x: Seq<char>| #[trigger] has(m, b, x) ==> exists|i: int, j: int| #[trigger] stored(s, i, j) && img_bytes(s[i].images@[j])->Some_0 == b && img_ext(s[i].images@[j]) == x
}
pub open spec fn total_images(s: Seq<SlideContent>, n: int) -> int decreases n { if n <= 0 { 0 } else { total_images(s, n - 1) + s[n - 1].images@.len() } }
pub proof fn lemma_total_mono(s: Seq<SlideContent>, a: int, b: int) requires a <= b ensures total_images(s, a) <= total_images(s, b) decreases b - a { if a < b { lemma_total_mono(s, a, b - 1); } }
pub proof fn lemma_total_pos(s: Seq<SlideContent>, a: int) ensures total_images(s, a) >= 0 decreases a { if a > 0 { lemma_total_pos(s, a - 1); } }
//@fn build_media_registry
//@ sub: MediaRegistry :: default () =>> MediaRegistry { entries : Vec :: new () }
//@ opt: forpath
//@ requires: total_images(slides@, slides@.len() as int) < usize::MAX
//@ ensures:
//@   wf(vx_ret), none_extra(vx_ret, slides@),
//@   forall|i: int, j: int| #[trigger] stored(slides@, i, j) ==> has_img(vx_ret, slides@[i].images@[j]),
//@ loop 0 pre: proof { assert forall|b: Seq<u8>, x: Seq<char>| !(#[trigger] has(registry, b, x)) by { if has(registry, b, x) { let n = choose|n: int| #[trigger] holds(registry, n, b, x); } } }
//@ loop 0 inv: vx_s0@ == slides@, total_images(slides@, slides@.len() as int) < usize::MAX, wf(registry), none_extra(registry, slides@), registry.entries@.len() <= total_images(slides@, vx_i0 as int),
//@   forall|i: int, j: int| #[trigger] stored(slides@, i, j) && i < vx_i0 ==> has_img(registry, slides@[i].images@[j])
//@ loop 0 begin: proof { lemma_total_mono(slides@, vx_i0 + 1, slides@.len() as int); }
//@ loop 1 inv: vx_s1@ == slide.images@, 0 < vx_i0 <= slides@.len(), *slide == slides@[vx_i0 - 1], wf(registry), none_extra(registry, slides@), total_images(slides@, vx_i0 as int) < usize::MAX, registry.entries@.len() <= total_images(slides@, vx_i0 - 1) + vx_i1,
//@   forall|i: int, j: int| #[trigger] stored(slides@, i, j) && (i < vx_i0 - 1 || i == vx_i0 - 1 && j < vx_i1) ==> has_img(registry, slides@[i].images@[j])
//@ loop 1 begin: let ghost vx_o = registry;
//@ loop 1 end: proof {
//@    assert forall|i: int, j: int| #[trigger] stored(slides@, i, j) && (i < vx_i0 - 1 || i == vx_i0 - 1 && j < vx_i1) implies has_img(registry, slides@[i].images@[j]) by {
//@      if i < vx_i0 - 1 || j < vx_i1 - 1 { lemma_has_grows(vx_o, registry, img_bytes(slides@[i].images@[j])->Some_0, img_ext(slides@[i].images@[j])); }
//@      else { assert(exists|n: int| #[trigger] holds(registry, n, img_bytes(*image)->Some_0, img_ext(*image))); } }
//@    if img_bytes(*image) is Some { assert(stored(slides@, vx_i0 - 1, vx_i1 - 1)); }
//@ }
//@end
// pictures of a slide that can be written, before picture k
pub open spec fn writable(v: Seq<Image>, k: int) -> Seq<Image> decreases k { if k <= 0 { Seq::<Image>::empty() } else if img_bytes(v[k - 1]) is Some { writable(v, k - 1).push(v[k - 1]) } else { writable(v, k - 1) } }
//@fn slide_image_rel_targets
//@ requires: wf(*registry), forall|j: int| 0 <= j < slide.images@.len() ==> has_img(*registry, #[trigger] slide.images@[j])
//@ ensures:
//@   vx_ret@.len() == writable(slide.images@, slide.images@.len() as int).len(),
//@   forall|k: int| 0 <= k < vx_ret@.len() ==> holds(*registry, (#[trigger] vx_ret@[k]).0 as int, img_bytes(writable(slide.images@, slide.images@.len() as int)[k])->Some_0, vx_ret@[k].1@) && vx_ret@[k].1@ == img_ext(writable(slide.images@, slide.images@.len() as int)[k])
//@ loop 0 inv: tyv::<(usize, String)>(images), vx_s0@ == slide.images@, wf(*registry), (forall|j: int| 0 <= j < slide.images@.len() ==> has_img(*registry, #[trigger] slide.images@[j])), images@.len() == writable(slide.images@, vx_i0 as int).len(),
//@   forall|k: int| 0 <= k < images@.len() ==> holds(*registry, (#[trigger] images@[k]).0 as int, img_bytes(writable(slide.images@, vx_i0 as int)[k])->Some_0, images@[k].1@) && images@[k].1@ == img_ext(writable(slide.images@, vx_i0 as int)[k])
//@end
//%extras
} // verus!
fn main() {}
