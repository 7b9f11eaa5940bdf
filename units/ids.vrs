//@include prelude.rs
//@opt optmatch
//@lits
verus! {
// =========================================================================== relationships
//@type RelationshipType
//@type parts/relationships.rs|Relationship
//@type Relationships

pub open spec fn rid(n: nat) -> Seq<char> { seq!['r', 'I', 'd'] + dec(n) }
pub proof fn lemma_rid_injective(a: nat, b: nat) requires rid(a) == rid(b) ensures a == b {
    assert(rid(a).skip(3) =~= dec(a)); assert(rid(b).skip(3) =~= dec(b)); lemma_dec_injective(a, b);
}
pub open spec fn has_id(r: Relationships, id: Seq<char>) -> bool { exists|i: int| 0 <= i < r.relationships@.len() && (#[trigger] r.relationships@[i]).id@ == id }
// ids are unique
pub open spec fn distinct(r: Relationships) -> bool { forall|i: int, j: int| 0 <= i < j < r.relationships@.len() ==> (#[trigger] r.relationships@[i]).id@ != (#[trigger] r.relationships@[j]).id@ }
pub open spec fn is_rel(r: Relationship, id: Seq<char>, t: RelationshipType, target: Seq<char>) -> bool { r.id@ == id && r.rel_type == t && r.target@ == target }
// exactly one relationship more, the others untouched
pub open spec fn appended(o: Relationships, n: Relationships, id: Seq<char>, t: RelationshipType, target: Seq<char>) -> bool {
    n.relationships@.len() == o.relationships@.len() + 1 && is_rel(n.relationships@.last(), id, t, target)
    && forall|i: int| 0 <= i < o.relationships@.len() ==> #[trigger] n.relationships@[i] == o.relationships@[i]
}
pub proof fn lemma_appended(o: Relationships, n: Relationships, id: Seq<char>, t: RelationshipType, target: Seq<char>)
    requires appended(o, n, id, t, target), distinct(o), !has_id(o, id)
    ensures distinct(n), has_id(n, id), forall|x: Seq<char>| #[trigger] has_id(n, x) <==> has_id(o, x) || x == id
{
    assert(n.relationships@[n.relationships@.len() - 1].id@ == id);
    assert forall|x: Seq<char>| #[trigger] has_id(n, x) <==> has_id(o, x) || x == id by {
        if has_id(n, x) { let i = choose|i: int| 0 <= i < n.relationships@.len() && (#[trigger] n.relationships@[i]).id@ == x; if i < o.relationships@.len() { assert(o.relationships@[i].id@ == x); } }
        if has_id(o, x) { let i = choose|i: int| 0 <= i < o.relationships@.len() && (#[trigger] o.relationships@[i]).id@ == x; assert(n.relationships@[i].id@ == x); }
    }
    assert forall|i: int, j: int| 0 <= i < j < n.relationships@.len() implies (#[trigger] n.relationships@[i]).id@ != (#[trigger] n.relationships@[j]).id@ by {
        if j < o.relationships@.len() { assert(o.relationships@[i].id@ != o.relationships@[j].id@); } else { assert(o.relationships@[i].id@ != id); }
    }
}
//@fn Relationship::new
//@ ensures: is_rel(vx_ret, id@, rel_type, target@)
//@end
//@fn Relationships::new
//@ ensures: vx_ret.relationships@.len() == 0, vx_ret.next_id == 1, distinct(vx_ret)
//@end
//@fn Relationships::get
//@ opt: streq
//@ ensures:
//@   vx_ret is Some <==> has_id(*self, id@),
//@   vx_ret is Some ==> vx_ret->Some_0.id@ == id@ && (exists|i: int| 0 <= i < self.relationships@.len() && #[trigger] self.relationships@[i] == *vx_ret->Some_0),
//@   distinct(*self) ==> (forall|i: int| 0 <= i < self.relationships@.len() && (#[trigger] self.relationships@[i]).id@ == id@ ==> vx_ret == Some(&self.relationships@[i])),
//@ loop 0 inv: vx_r0 == None::<&Relationship> ==> (forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] self.relationships@[i]).id@ != id@), vx_s0@ == self.relationships@, vx_r0 is Some ==> (vx_i0 < vx_s0@.len() && *vx_r0->Some_0 == self.relationships@[vx_i0 as int] && vx_r0->Some_0.id@ == id@)
//@end
//@fn Relationships::add
//@ attr: #[verifier::exec_allows_no_decreases_clause]
//@ ensures:
//@   !has_id(*old(self), vx_ret@), appended(*old(self), *final(self), vx_ret@, rel_type, target@),
//@   exists|n: nat| n <= u32::MAX && vx_ret@ == #[trigger] rid(n),
//@ loop 0 inv: id@ == rid(self.next_id as nat), self.relationships@ == old(self).relationships@
//@ loop 0 pre: proof { assert(id@ =~= rid(self.next_id as nat)); }
//@ loop 0 end: proof { assert(id@ =~= rid(self.next_id as nat)); }
//@ begin: let ghost vx_o = *self;
//@ end: proof { assert(!has_id(vx_o, vx_r@)); }
//@end
#[verifier::external_body] pub fn vx_num(id: &str) -> Option<u32> { id.strip_prefix("rId").and_then(|s| s.parse().ok()) }
//@fn Relationships::add_with_id
//@ sub: id . strip_prefix ( "rId" ) . and_then ( | s | s . parse :: < u32 > ( ) . ok ( ) ) =>> vx_num ( id )
//@ ensures: appended(*old(self), *final(self), id@, rel_type, target@)
//@end
//@fn Relationships::all
//@ ensures: vx_ret@ == self.relationships@
//@end
//@fn Relationships::len
//@ ensures: vx_ret == self.relationships@.len()
//@end
//@fn Relationships::is_empty
//@ ensures: vx_ret == (self.relationships@.len() == 0)
//@end

// the kind of a relationship survives writing and reading
pub uninterp spec fn lastseg(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub broadcast proof fn axiom_lastseg(a: Seq<char>, b: Seq<char>) requires forall|i: int| 0 <= i < b.len() ==> b[i] != '/' ensures #[trigger] lastseg(a + (seq!['/'] + b)) == b {}
#[verifier::external_body] pub fn vx_last_seg(s: &str) -> (r: &str) ensures r@ == lastseg(s@) { s.rsplit('/').next().unwrap_or(s) }
pub proof fn reveal_kinds() ensures "officeDocument"@ == seq!['o','f','f','i','c','e','D','o','c','u','m','e','n','t'], "slide"@ == seq!['s','l','i','d','e'], "slideLayout"@ == seq!['s','l','i','d','e','L','a','y','o','u','t'], "slideMaster"@ == seq!['s','l','i','d','e','M','a','s','t','e','r'], "theme"@ == seq!['t','h','e','m','e'], "image"@ == seq!['i','m','a','g','e'], "chart"@ == seq!['c','h','a','r','t'], "core-properties"@ == seq!['c','o','r','e','-','p','r','o','p','e','r','t','i','e','s'], "extended-properties"@ == seq!['e','x','t','e','n','d','e','d','-','p','r','o','p','e','r','t','i','e','s']
{
    reveal_strlit("officeDocument"); assert("officeDocument"@ =~= seq!['o','f','f','i','c','e','D','o','c','u','m','e','n','t']);
    reveal_strlit("slide"); assert("slide"@ =~= seq!['s','l','i','d','e']);
    reveal_strlit("slideLayout"); assert("slideLayout"@ =~= seq!['s','l','i','d','e','L','a','y','o','u','t']);
    reveal_strlit("slideMaster"); assert("slideMaster"@ =~= seq!['s','l','i','d','e','M','a','s','t','e','r']);
    reveal_strlit("theme"); assert("theme"@ =~= seq!['t','h','e','m','e']);
    reveal_strlit("image"); assert("image"@ =~= seq!['i','m','a','g','e']);
    reveal_strlit("chart"); assert("chart"@ =~= seq!['c','h','a','r','t']);
    reveal_strlit("core-properties"); assert("core-properties"@ =~= seq!['c','o','r','e','-','p','r','o','p','e','r','t','i','e','s']);
    reveal_strlit("extended-properties"); assert("extended-properties"@ =~= seq!['e','x','t','e','n','d','e','d','-','p','r','o','p','e','r','t','i','e','s']);
}
pub open spec fn kind_of(s: Seq<char>) -> Option<RelationshipType> {
    if s == "slide"@ { Some(RelationshipType::Slide) } else if s == "slideLayout"@ { Some(RelationshipType::SlideLayout) } else if s == "slideMaster"@ { Some(RelationshipType::SlideMaster) }
    else if s == "theme"@ { Some(RelationshipType::Theme) } else if s == "image"@ { Some(RelationshipType::Image) } else if s == "chart"@ { Some(RelationshipType::Chart) }
    else if s == "officeDocument"@ { Some(RelationshipType::OfficeDocument) } else if s == "core-properties"@ { Some(RelationshipType::CoreProperties) }
    else if s == "extended-properties"@ { Some(RelationshipType::ExtendedProperties) } else { None }
}
//@fn RelationshipType::uri
//@ ensures:
//@   self matches RelationshipType::Custom(u) ==> vx_ret@ == u@,
//@   !(self is Custom) ==> kind_of(lastseg(vx_ret@)) == Some(*self),
//@ end: broadcast use axiom_lastseg; proof { reveal_kinds(); match *self { RelationshipType::OfficeDocument => { assert(vx_r@ =~= seq!['h','t','t','p',':','/','/','s','c','h','e','m','a','s','.','o','p','e','n','x','m','l','f','o','r','m','a','t','s','.','o','r','g','/','o','f','f','i','c','e','D','o','c','u','m','e','n','t','/','2','0','0','6','/','r','e','l','a','t','i','o','n','s','h','i','p','s'] + (seq!['/'] + "officeDocument"@)); } RelationshipType::Slide => { assert(vx_r@ =~= seq!['h','t','t','p',':','/','/','s','c','h','e','m','a','s','.','o','p','e','n','x','m','l','f','o','r','m','a','t','s','.','o','r','g','/','o','f','f','i','c','e','D','o','c','u','m','e','n','t','/','2','0','0','6','/','r','e','l','a','t','i','o','n','s','h','i','p','s'] + (seq!['/'] + "slide"@)); } RelationshipType::SlideLayout => { assert(vx_r@ =~= seq!['h','t','t','p',':','/','/','s','c','h','e','m','a','s','.','o','p','e','n','x','m','l','f','o','r','m','a','t','s','.','o','r','g','/','o','f','f','i','c','e','D','o','c','u','m','e','n','t','/','2','0','0','6','/','r','e','l','a','t','i','o','n','s','h','i','p','s'] + (seq!['/'] + "slideLayout"@)); } RelationshipType::SlideMaster => { assert(vx_r@ =~= seq!['h','t','t','p',':','/','/','s','c','h','e','m','a','s','.','o','p','e','n','x','m','l','f','o','r','m','a','t','s','.','o','r','g','/','o','f','f','i','c','e','D','o','c','u','m','e','n','t','/','2','0','0','6','/','r','e','l','a','t','i','o','n','s','h','i','p','s'] + (seq!['/'] + "slideMaster"@)); } RelationshipType::Theme => { assert(vx_r@ =~= seq!['h','t','t','p',':','/','/','s','c','h','e','m','a','s','.','o','p','e','n','x','m','l','f','o','r','m','a','t','s','.','o','r','g','/','o','f','f','i','c','e','D','o','c','u','m','e','n','t','/','2','0','0','6','/','r','e','l','a','t','i','o','n','s','h','i','p','s'] + (seq!['/'] + "theme"@)); } RelationshipType::Image => { assert(vx_r@ =~= seq!['h','t','t','p',':','/','/','s','c','h','e','m','a','s','.','o','p','e','n','x','m','l','f','o','r','m','a','t','s','.','o','r','g','/','o','f','f','i','c','e','D','o','c','u','m','e','n','t','/','2','0','0','6','/','r','e','l','a','t','i','o','n','s','h','i','p','s'] + (seq!['/'] + "image"@)); } RelationshipType::Chart => { assert(vx_r@ =~= seq!['h','t','t','p',':','/','/','s','c','h','e','m','a','s','.','o','p','e','n','x','m','l','f','o','r','m','a','t','s','.','o','r','g','/','o','f','f','i','c','e','D','o','c','u','m','e','n','t','/','2','0','0','6','/','r','e','l','a','t','i','o','n','s','h','i','p','s'] + (seq!['/'] + "chart"@)); } RelationshipType::CoreProperties => { assert(vx_r@ =~= seq!['h','t','t','p',':','/','/','s','c','h','e','m','a','s','.','o','p','e','n','x','m','l','f','o','r','m','a','t','s','.','o','r','g','/','p','a','c','k','a','g','e','/','2','0','0','6','/','r','e','l','a','t','i','o','n','s','h','i','p','s','/','m','e','t','a','d','a','t','a'] + (seq!['/'] + "core-properties"@)); } RelationshipType::ExtendedProperties => { assert(vx_r@ =~= seq!['h','t','t','p',':','/','/','s','c','h','e','m','a','s','.','o','p','e','n','x','m','l','f','o','r','m','a','t','s','.','o','r','g','/','o','f','f','i','c','e','D','o','c','u','m','e','n','t','/','2','0','0','6','/','r','e','l','a','t','i','o','n','s','h','i','p','s'] + (seq!['/'] + "extended-properties"@)); } RelationshipType::Custom(_) => {} } }
//@end
//@fn RelationshipType::from_uri
//@ opt: streq
//@ sub: uri . rsplit ( '/' ) . next ( ) . unwrap_or ( uri ) =>> vx_last_seg ( uri )
//@ ensures:
//@   kind_of(lastseg(uri@)) is Some ==> vx_ret == kind_of(lastseg(uri@))->Some_0,
//@   kind_of(lastseg(uri@)) is None ==> (vx_ret matches RelationshipType::Custom(u) && u@ == uri@),
//@ begin: proof { reveal_kinds(); }
//@end
// reading the URI of a built-in kind gives that kind back
proof fn lemma_kind_round_trip(t: RelationshipType, u: Seq<char>)
    requires !(t is Custom), kind_of(lastseg(u)) == Some(t)
    ensures kind_of(lastseg(u)) is Some && kind_of(lastseg(u))->Some_0 == t {}
// =========================================================================== presentation part
pub proof fn lemma_pigeon(v: Seq<int>, a: int, b: int)
    requires a <= b, forall|k: int| a <= k < b ==> v.contains(k)
    ensures b - a <= v.len()
{
    vstd::set_lib::lemma_int_range(a, b);
    v.lemma_cardinality_of_set();
    assert(vstd::set_lib::set_int_range(a, b).subset_of(v.to_set()));
    vstd::set_lib::lemma_len_subset(vstd::set_lib::set_int_range(a, b), v.to_set());
}
//@type SlideRef
//@type PresentationPart
pub open spec fn slide_id_used(v: Seq<SlideRef>, id: int) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).id == id }
pub proof fn lemma_pigeon_slides(v: Seq<SlideRef>, a: int, b: int)
    requires a <= b, forall|k: int| a <= k < b ==> #[trigger] slide_id_used(v, k)
    ensures b - a <= v.len()
{
    let w = v.map_values(|s: SlideRef| s.id as int);
    assert forall|k: int| a <= k < b implies w.contains(k) by { assert(slide_id_used(v, k)); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).id == k; assert(w[i] == k); }
    lemma_pigeon(w, a, b);
}
//@fn PresentationPart::add_slide
//@ requires: old(self).slide_refs@.len() < 0x7fff_0000
//@ ensures:
//@   !slide_id_used(old(self).slide_refs@, vx_ret as int), vx_ret >= 257,
//@   final(self).slide_refs@.len() == old(self).slide_refs@.len() + 1, final(self).slide_refs@.last().id == vx_ret, final(self).slide_refs@.last().r_id@ == r_id@,
//@   forall|i: int| 0 <= i < old(self).slide_refs@.len() ==> #[trigger] final(self).slide_refs@[i] == old(self).slide_refs@[i],
//@ begin: let ghost vx_o = self.slide_refs@; let ghost mut vx_id: int = 0;
//@ loop 0 pre: proof { vx_id = id as int; }
//@ loop 0 inv: self.slide_refs@ == vx_o, vx_o.len() < 0x7fff_0000, vx_id == 257 + vx_o.len(), vx_id <= id, forall|k: int| vx_id <= k < id ==> #[trigger] slide_id_used(vx_o, k)
//@ loop 0 dec: vx_id + vx_o.len() - id
//@ loop 0 begin: proof { lemma_pigeon_slides(vx_o, vx_id, id as int); assert(slide_id_used(vx_o, id as int)); lemma_pigeon_slides(vx_o, vx_id, id as int + 1); }
//@ loop 1 inv: vx_s1@ == vx_o, self.slide_refs@ == vx_o, (!vx_r1 ==> forall|i: int| 0 <= i < vx_i1 ==> (#[trigger] vx_o[i]).id != id), vx_r1 ==> vx_i1 < vx_o.len() && vx_o[vx_i1 as int].id == id
//@end
pub open spec fn rid_free(p: PresentationPart, id: Seq<char>) -> bool {
    (p.slide_master_r_id matches Some(m) ==> m@ != id) && (p.theme_r_id matches Some(m) ==> m@ != id) && forall|i: int| 0 <= i < p.slide_refs@.len() ==> (#[trigger] p.slide_refs@[i]).r_id@ != id
}
#[verifier::external_body] pub fn vx_opt_is(o: &Option<String>, s: &str) -> (r: bool) ensures r == (o matches Some(x) && x@ == s@) { o.as_deref() == Some(s) }
pub open spec fn first_free(p: PresentationPart, taken: Seq<char>, id: Seq<char>) -> bool {
    exists|n: nat| n >= 1 && id == #[trigger] rid(n) && !used_ids(p, taken).contains(rid(n)) && forall|k: nat| 1 <= k < n ==> used_ids(p, taken).contains(#[trigger] rid(k))
}
pub proof fn lemma_first_free_unique(p: PresentationPart, taken: Seq<char>, a: Seq<char>, b: Seq<char>) requires first_free(p, taken, a), first_free(p, taken, b) ensures a == b {
    let n = choose|n: nat| n >= 1 && a == #[trigger] rid(n) && !used_ids(p, taken).contains(rid(n)) && forall|k: nat| 1 <= k < n ==> used_ids(p, taken).contains(#[trigger] rid(k));
    let m = choose|n: nat| n >= 1 && b == #[trigger] rid(n) && !used_ids(p, taken).contains(rid(n)) && forall|k: nat| 1 <= k < n ==> used_ids(p, taken).contains(#[trigger] rid(k));
    if n < m { assert(used_ids(p, taken).contains(rid(n))); } if m < n { assert(used_ids(p, taken).contains(rid(m))); }
}
// the id of the master: the given one, or the first number nobody uses (both writers agree on it)
pub open spec fn master_is(p: PresentationPart, id: Seq<char>) -> bool { if p.slide_master_r_id is Some { id == p.slide_master_r_id->Some_0@ } else { first_free(p, Seq::empty(), id) && rid_free(p, id) } }
pub open spec fn theme_is(p: PresentationPart, id: Seq<char>) -> bool { if p.theme_r_id is Some { id == p.theme_r_id->Some_0@ } else { rid_free(p, id) && exists|m: Seq<char>| #[trigger] master_is(p, m) && m != id && first_free(p, m, id) } }
pub proof fn lemma_master_unique(p: PresentationPart, a: Seq<char>, b: Seq<char>) requires master_is(p, a), master_is(p, b) ensures a == b { if p.slide_master_r_id is None { lemma_first_free_unique(p, Seq::empty(), a, b); } }
// ids the caller gave are distinct
pub open spec fn given_distinct(p: PresentationPart) -> bool {
    (forall|i: int, j: int| 0 <= i < j < p.slide_refs@.len() ==> (#[trigger] p.slide_refs@[i]).r_id@ != (#[trigger] p.slide_refs@[j]).r_id@)
    && (p.slide_master_r_id is Some ==> forall|i: int| 0 <= i < p.slide_refs@.len() ==> (#[trigger] p.slide_refs@[i]).r_id@ != p.slide_master_r_id->Some_0@)
    && (p.theme_r_id is Some ==> forall|i: int| 0 <= i < p.slide_refs@.len() ==> (#[trigger] p.slide_refs@[i]).r_id@ != p.theme_r_id->Some_0@)
    && (p.slide_master_r_id is Some && p.theme_r_id is Some ==> p.slide_master_r_id->Some_0@ != p.theme_r_id->Some_0@)
}
pub open spec fn used_ids(p: PresentationPart, taken: Seq<char>) -> Seq<Seq<char>> {
    p.slide_refs@.map_values(|s: SlideRef| s.r_id@) + seq![taken, if p.slide_master_r_id is Some { p.slide_master_r_id->Some_0@ } else { taken }, if p.theme_r_id is Some { p.theme_r_id->Some_0@ } else { taken }]
}
pub proof fn lemma_used(p: PresentationPart, taken: Seq<char>, id: Seq<char>)
    ensures used_ids(p, taken).contains(id) <==> id == taken || !rid_free(p, id)
{
    let u = used_ids(p, taken); let n = p.slide_refs@.len() as int;
    assert(u[n] == taken && u[n + 1] == (if p.slide_master_r_id is Some { p.slide_master_r_id->Some_0@ } else { taken }) && u[n + 2] == (if p.theme_r_id is Some { p.theme_r_id->Some_0@ } else { taken }));
    assert forall|i: int| 0 <= i < n implies u[i] == (#[trigger] p.slide_refs@[i]).r_id@ by {}
    if u.contains(id) && id != taken { let i = choose|i: int| 0 <= i < u.len() && u[i] == id; if i < n { assert(p.slide_refs@[i].r_id@ == id); } }
}
pub proof fn lemma_pigeon_rids(v: Seq<Seq<char>>, b: nat)
    requires b >= 1, forall|k: nat| 1 <= k < b ==> v.contains(#[trigger] rid(k))
    ensures b - 1 <= v.len()
{
    let l = Seq::new((b - 1) as nat, |i: int| rid((i + 1) as nat));
    assert(l.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && i != j implies l[i] != l[j] by { if l[i] == l[j] { lemma_rid_injective((i + 1) as nat, (j + 1) as nat); } }
    }
    l.unique_seq_to_set();
    v.lemma_cardinality_of_set();
    let names = l.to_set();
    assert(names.subset_of(v.to_set())) by {
        assert forall|x: Seq<char>| names.contains(x) implies v.to_set().contains(x) by { let i = choose|i: int| 0 <= i < l.len() && l[i] == x; assert(v.contains(rid((i + 1) as nat))); }
    }
    vstd::set_lib::lemma_len_subset(names, v.to_set());
}
//@fn PresentationPart::free_r_id
//@ requires: self.slide_refs@.len() < 0x7fff_0000
//@ opt: streq
//@ sub: self . slide_master_r_id . as_deref ( ) == Some ( id . as_str ( ) ) =>> vx_opt_is ( & self . slide_master_r_id , & id )
//@ sub: self . theme_r_id . as_deref ( ) == Some ( id . as_str ( ) ) =>> vx_opt_is ( & self . theme_r_id , & id )
//@ ensures: vx_ret@ != taken@, rid_free(*self, vx_ret@), first_free(*self, taken@, vx_ret@)
//@ loop 1 inv: vx_s1@ == self.slide_refs@, (!vx_r1 ==> forall|i: int| 0 <= i < vx_i1 ==> (#[trigger] self.slide_refs@[i]).r_id@ != id@), vx_r1 ==> vx_i1 < self.slide_refs@.len() && self.slide_refs@[vx_i1 as int].r_id@ == id@
//@ loop 0 inv: num >= 1, self.slide_refs@.len() < 0x7fff_0000, forall|k: nat| 1 <= k < num ==> used_ids(*self, taken@).contains(#[trigger] rid(k))
//@ loop 0 dec: self.slide_refs@.len() + 5 - num
//@ loop 0 begin: proof { lemma_pigeon_rids(used_ids(*self, taken@), num as nat); lemma_used(*self, taken@, rid(num as nat)); assert(Seq::<char>::empty() + seq!['r', 'I', 'd'] + dec(num as nat) =~= rid(num as nat)); }
//@ loop 0 end: proof { assert(id@ =~= rid((num - 1) as nat)); lemma_used(*self, taken@, id@); lemma_pigeon_rids(used_ids(*self, taken@), num as nat); }
//@end
//@fn PresentationPart::master_r_id
//@ requires: self.slide_refs@.len() < 0x7fff_0000
//@ ensures: master_is(*self, vx_ret@)
//@ begin: proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end
//@fn PresentationPart::theme_r_id
//@ requires: self.slide_refs@.len() < 0x7fff_0000
//@ ensures: theme_is(*self, vx_ret@)
//@end
pub open spec fn master_target() -> Seq<char> { seq!['s','l','i','d','e','M','a','s','t','e','r','s','/','s','l','i','d','e','M','a','s','t','e','r','1','.','x','m','l'] }
pub open spec fn theme_target() -> Seq<char> { seq!['t','h','e','m','e','/','t','h','e','m','e','1','.','x','m','l'] }
pub open spec fn slide_target(k: int) -> Seq<char> { seq!['s','l','i','d','e','s','/','s','l','i','d','e'] + dec(k as nat) + seq!['.','x','m','l'] }
pub proof fn lemma_rels_distinct(p: PresentationPart, r: Relationships)
    requires given_distinct(p), r.relationships@.len() == p.slide_refs@.len() + 2, master_is(p, r.relationships@[0].id@), theme_is(p, r.relationships@[1].id@),
        forall|i: int| 0 <= i < p.slide_refs@.len() ==> is_rel(#[trigger] r.relationships@[i + 2], p.slide_refs@[i].r_id@, RelationshipType::Slide, slide_target(i + 1))
    ensures distinct(r)
{
    let m = r.relationships@[0].id@; let t = r.relationships@[1].id@;
    assert(m != t) by { if p.theme_r_id is None { let q = choose|q: Seq<char>| #[trigger] master_is(p, q) && q != t && first_free(p, q, t); lemma_master_unique(p, m, q); } }
    assert forall|i: int, j: int| 0 <= i < j < r.relationships@.len() implies (#[trigger] r.relationships@[i]).id@ != (#[trigger] r.relationships@[j]).id@ by {
        if j >= 2 {
            assert(is_rel(r.relationships@[(j - 2) + 2], p.slide_refs@[j - 2].r_id@, RelationshipType::Slide, slide_target(j - 1)));
            if i >= 2 { assert(is_rel(r.relationships@[(i - 2) + 2], p.slide_refs@[i - 2].r_id@, RelationshipType::Slide, slide_target(i - 1))); assert(p.slide_refs@[i - 2].r_id@ != p.slide_refs@[j - 2].r_id@); }
            else { assert(p.slide_refs@[j - 2].r_id@ != m); assert(p.slide_refs@[j - 2].r_id@ != t); }
        }
    }
}
//@fn PresentationPart::create_relationships
//@ requires: self.slide_refs@.len() < 0x7fff_0000
//@ ensures:
//@   vx_ret.relationships@.len() == self.slide_refs@.len() + 2,
//@   master_is(*self, vx_ret.relationships@[0].id@), vx_ret.relationships@[0].rel_type is SlideMaster, vx_ret.relationships@[0].target@ == master_target(),
//@   theme_is(*self, vx_ret.relationships@[1].id@), vx_ret.relationships@[1].rel_type is Theme, vx_ret.relationships@[1].target@ == theme_target(),
//@   forall|i: int| 0 <= i < self.slide_refs@.len() ==> is_rel(#[trigger] vx_ret.relationships@[i + 2], self.slide_refs@[i].r_id@, RelationshipType::Slide, slide_target(i + 1)),
//@   given_distinct(*self) ==> distinct(vx_ret),
//@ loop 0 inv: vx_s0@ == self.slide_refs@, rels.relationships@.len() == vx_i0 + 2, self.slide_refs@.len() < 0x7fff_0000,
//@   master_is(*self, rels.relationships@[0].id@), rels.relationships@[0].rel_type is SlideMaster, rels.relationships@[0].target@ == master_target(),
//@   theme_is(*self, rels.relationships@[1].id@), rels.relationships@[1].rel_type is Theme, rels.relationships@[1].target@ == theme_target(),
//@   forall|i: int| 0 <= i < vx_i0 ==> is_rel(#[trigger] rels.relationships@[i + 2], self.slide_refs@[i].r_id@, RelationshipType::Slide, slide_target(i + 1))
//@ loop 0 begin: let ghost vx_o = rels;
//@ loop 0 end: proof { assert(is_rel(rels.relationships@[vx_i0 + 1], self.slide_refs@[vx_i0 - 1].r_id@, RelationshipType::Slide, slide_target(vx_i0 as int))) by { assert(Seq::<char>::empty() + seq!['s','l','i','d','e','s','/','s','l','i','d','e'] + dec(vx_i0 as nat) + seq!['.','x','m','l'] =~= slide_target(vx_i0 as int)); }
//@   assert forall|i: int| 0 <= i < vx_i0 implies is_rel(#[trigger] rels.relationships@[i + 2], self.slide_refs@[i].r_id@, RelationshipType::Slide, slide_target(i + 1)) by { if i < vx_i0 - 1 { assert(rels.relationships@[i + 2] == vx_o.relationships@[i + 2]); } } }
//@ end: proof { if given_distinct(*self) { lemma_rels_distinct(*self, vx_r); } }
//@end
// =========================================================================== comments
//@type generator/slide_content/comments.rs|CommentAuthor
//@type generator/slide_content/comments.rs|Comment
//@type SlideComments
//@fn Comment::new
//@ ensures: vx_ret.author_id == author_id, vx_ret.text@ == text@
//@end
//@fn Comment::position
//@ ensures: vx_ret == (Comment { x: x, y: y, ..self })
//@end
//@fn Comment::index
//@ ensures: vx_ret == (Comment { index: idx, ..self })
//@end
pub open spec fn index_used(v: Seq<Comment>, k: int) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).index == k }
pub proof fn lemma_pigeon_comments(v: Seq<Comment>, a: int, b: int)
    requires a <= b, forall|k: int| a <= k < b ==> #[trigger] index_used(v, k)
    ensures b - a <= v.len()
{
    let w = v.map_values(|s: Comment| s.index as int);
    assert forall|k: int| a <= k < b implies w.contains(k) by { assert(index_used(v, k)); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).index == k; assert(w[i] == k); }
    lemma_pigeon(w, a, b);
}
//@fn SlideComments::add
//@ ensures: final(self).comments@ == old(self).comments@.push(comment)
//@end
//@fn SlideComments::add_comment
//@ requires: old(self).comments@.len() < 0x7fff_0000
//@ ensures:
//@   final(self).comments@.len() == old(self).comments@.len() + 1, forall|i: int| 0 <= i < old(self).comments@.len() ==> #[trigger] final(self).comments@[i] == old(self).comments@[i],
//@   !index_used(old(self).comments@, final(self).comments@.last().index as int), final(self).comments@.last().author_id == author_id, final(self).comments@.last().text@ == text@, final(self).comments@.last().x == x, final(self).comments@.last().y == y,
//@ begin: let ghost vx_o = self.comments@; let ghost mut vx_id: int = 0;
//@ loop 0 pre: proof { vx_id = idx as int; }
//@ loop 0 inv: self.comments@ == vx_o, vx_o.len() < 0x7fff_0000, vx_id == 1 + vx_o.len(), vx_id <= idx, forall|k: int| vx_id <= k < idx ==> #[trigger] index_used(vx_o, k)
//@ loop 0 dec: vx_id + vx_o.len() - idx
//@ loop 0 begin: proof { lemma_pigeon_comments(vx_o, vx_id, idx as int); assert(index_used(vx_o, idx as int)); lemma_pigeon_comments(vx_o, vx_id, idx as int + 1); }
//@ loop 1 inv: vx_s1@ == vx_o, self.comments@ == vx_o, (!vx_r1 ==> forall|i: int| 0 <= i < vx_i1 ==> (#[trigger] vx_o[i]).index != idx), vx_r1 ==> vx_i1 < vx_o.len() && vx_o[vx_i1 as int].index == idx
//@end
// name -> id lookup table (std HashMap, by its documented meaning)
#[verifier::external_body] pub struct VxNames { m: std::collections::HashMap<String, u32> }
impl VxNames {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, u32>;
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&u32>) ensures r is Some <==> self@.dom().contains(k@), r is Some ==> *r->Some_0 == self@[k@] { self.m.get(k) }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: u32) -> (r: Option<u32>) ensures final(self)@ == old(self)@.insert(k@, v) { self.m.insert(k, v) }
}
//@type CommentAuthorList retype name_to_id=VxNames
// ids number the authors, every name has one author, and the table says which
pub open spec fn alwf(l: CommentAuthorList) -> bool {
    &&& l.next_id == l.authors@.len()
    &&& forall|i: int| 0 <= i < l.authors@.len() ==> (#[trigger] l.authors@[i]).id == i && l.name_to_id@.dom().contains(l.authors@[i].name@) && l.name_to_id@[l.authors@[i].name@] == i
    &&& forall|n: Seq<char>| #[trigger] l.name_to_id@.dom().contains(n) ==> (l.name_to_id@[n] as int) < l.authors@.len() && l.authors@[l.name_to_id@[n] as int].name@ == n
}
//@fn CommentAuthor::new
//@ ensures: vx_ret.id == id, vx_ret.name@ == name@, vx_ret.initials@ == initials@, vx_ret.color_index == id
//@end
//@fn CommentAuthorList::get_or_add
//@ requires: alwf(*old(self)), old(self).authors@.len() < u32::MAX
//@ ensures:
//@   alwf(*final(self)), (vx_ret as int) < final(self).authors@.len(), final(self).authors@[vx_ret as int].name@ == name@,
//@   final(self).authors@.len() >= old(self).authors@.len(), forall|i: int| 0 <= i < old(self).authors@.len() ==> #[trigger] final(self).authors@[i] == old(self).authors@[i],
//@   old(self).name_to_id@.dom().contains(name@) ==> final(self).authors@ == old(self).authors@, !old(self).name_to_id@.dom().contains(name@) ==> vx_ret == old(self).authors@.len(),
//@end
//@fn CommentAuthorList::get_by_id
//@ ensures: alwf(*self) ==> (vx_ret is Some <==> id < self.authors@.len()), alwf(*self) && vx_ret is Some ==> *vx_ret->Some_0 == self.authors@[id as int]
//@ loop 0 inv: vx_r0 == None::<&CommentAuthor> ==> (forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] self.authors@[i]).id != id), vx_s0@ == self.authors@, vx_r0 is Some ==> (vx_i0 < vx_s0@.len() && *vx_r0->Some_0 == self.authors@[vx_i0 as int] && vx_r0->Some_0.id == id)
//@ end: proof { if alwf(*self) && vx_r == None::<&CommentAuthor> && id < self.authors@.len() { assert(self.authors@[id as int].id == id); } }
//@end
//%extras
} // verus!
fn main() {}
