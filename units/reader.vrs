//@include prelude.rs
//@include parts.inc
//@lits
//@opt optmatch
//@opt default_string
//@opt keep_find
verus! {
// ------------------------------------------------- std and parser stand-ins (assumed by their documented meaning)
pub enum PptxError { NotFound(String), XmlParse(String), Other }
#[verifier::external_body] pub struct VxAttrs { m: std::collections::HashMap<String, String> }
impl VxAttrs {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&String>) ensures r is Some <==> self@.dom().contains(k@), r is Some ==> r->Some_0@ == self@[k@] { self.m.get(k) }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: String) -> (r: Option<String>) ensures final(self)@ == old(self)@.insert(k@, v@) { self.m.insert(k, v) }
}
// decimal numbers as FromStr reads them
pub open spec fn dval(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { dval(s.drop_last()) * 10 + (s.last() as int - '0' as int) } }
pub open spec fn alldig(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_dig(#[trigger] s[i]) }
pub open spec fn unsign(s: Seq<char>) -> Seq<char> { if s.len() > 1 && s[0] == '+' { s.skip(1) } else { s } }
pub trait VxParse: Sized { spec fn parsed(s: Seq<char>) -> Option<Self>; }
impl VxParse for u32 { open spec fn parsed(s: Seq<char>) -> Option<u32> { if alldig(unsign(s)) && dval(unsign(s)) <= u32::MAX { Some(dval(unsign(s)) as u32) } else { None } } }
impl VxParse for i64 { open spec fn parsed(s: Seq<char>) -> Option<i64> {
    if s.len() > 1 && s[0] == '-' { if alldig(s.skip(1)) && dval(s.skip(1)) <= -(i64::MIN as int) { Some((-dval(s.skip(1))) as i64) } else { None } }
    else if alldig(unsign(s)) && dval(unsign(s)) <= i64::MAX { Some(dval(unsign(s)) as i64) } else { None } } }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
// s without the leading copies of p
pub open spec fn stripall(s: Seq<char>, p: Seq<char>) -> Seq<char> decreases s.len() { if p.len() > 0 && has_prefix(s, p) { stripall(s.skip(p.len() as int), p) } else { s } }
pub trait VxMore {
    spec fn mv(&self) -> Seq<char>;
    fn vx_parse_any<T: VxParse>(&self) -> (r: Result<T, PptxError>) ensures (match T::parsed(self.mv()) { Some(v) => r == Ok::<T, PptxError>(v), None => r is Err });
    fn vx_to_lowercase(&self) -> (r: String) ensures r@ == lower(self.mv());
    fn vx_strip_prefix_c(&self, c: char) -> (r: Option<&str>) ensures r is Some <==> (self.mv().len() > 0 && self.mv()[0] == c), r is Some ==> r->Some_0@ == self.mv().skip(1);
    fn vx_trim_start_matches(&self, p: &str) -> (r: &str) ensures r@ == stripall(self.mv(), p@);
}
impl VxMore for str {
    open spec fn mv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_parse_any<T: VxParse>(&self) -> (r: Result<T, PptxError>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { self.to_lowercase() }
    #[verifier::external_body] fn vx_strip_prefix_c(&self, c: char) -> (r: Option<&str>) { self.strip_prefix(c) }
    #[verifier::external_body] fn vx_trim_start_matches(&self, p: &str) -> (r: &str) { self.trim_start_matches(p) }
}
pub open spec fn joined(v: Seq<String>, sep: Seq<char>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::<char>::empty() } else if n == 1 { v[0]@ } else { joined(v, sep, n - 1) + sep + v[n - 1]@ } }
pub trait VxJoin { spec fn jv(&self) -> Seq<String>; fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == joined(self.jv(), sep@, self.jv().len() as int); }
impl VxJoin for Vec<String> { open spec fn jv(&self) -> Seq<String> { self@ } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { self.join(sep) } }
// ------------------------------------------------- the element tree
//@type oxml/xmlchemy.rs|XmlElement retype attributes=VxAttrs
pub type E = XmlElement;
// children called n among the first k
pub open spec fn kidsl(v: Seq<E>, n: Seq<char>, k: int) -> Seq<E> decreases k { if k <= 0 { Seq::<E>::empty() } else if v[k - 1].local_name@ == n { kidsl(v, n, k - 1).push(v[k - 1]) } else { kidsl(v, n, k - 1) } }
pub open spec fn kids(e: E, n: Seq<char>) -> Seq<E> { kidsl(e.children@, n, e.children@.len() as int) }
pub open spec fn kid(e: E, n: Seq<char>) -> Option<E> { if kids(e, n).len() > 0 { Some(kids(e, n)[0]) } else { None } }
pub proof fn lemma_kidsl(v: Seq<E>, n: Seq<char>, a: int, b: int) requires 0 <= a <= b <= v.len() ensures kidsl(v, n, a).len() <= kidsl(v, n, b).len(), forall|i: int| 0 <= i < kidsl(v, n, a).len() ==> kidsl(v, n, b)[i] == #[trigger] kidsl(v, n, a)[i] decreases b - a { if a < b { lemma_kidsl(v, n, a, b - 1); } }
// descendants called n in document order (without e itself), those below the first k children
pub open spec fn descl(e: E, n: Seq<char>, k: int) -> Seq<E> decreases e, k via descl_dec {
    if k <= 0 || k > e.children@.len() { Seq::<E>::empty() } else {
        let c = e.children@[k - 1];
        descl(e, n, k - 1) + (if c.local_name@ == n { seq![c] } else { Seq::<E>::empty() }) + descl(c, n, c.children@.len() as int)
    }
}
#[via_fn] proof fn descl_dec(e: E, n: Seq<char>, k: int) { if !(k <= 0 || k > e.children@.len()) { broadcast use vstd::std_specs::vec::axiom_vec_index_decreases; assert(decreases_to!(e.children => e.children[k - 1])); } }
pub open spec fn desc(e: E, n: Seq<char>) -> Seq<E> { descl(e, n, e.children@.len() as int) }
pub open spec fn below(e: E, n: Seq<char>) -> Option<E> { if desc(e, n).len() > 0 { Some(desc(e, n)[0]) } else { None } }
pub proof fn lemma_descl(e: E, n: Seq<char>, a: int, b: int) requires 0 <= a <= b <= e.children@.len() ensures descl(e, n, a).len() <= descl(e, n, b).len(), forall|i: int| 0 <= i < descl(e, n, a).len() ==> descl(e, n, b)[i] == #[trigger] descl(e, n, a)[i] decreases b - a { if a < b { lemma_descl(e, n, a, b - 1); } }
// all the text in e, its own first
pub open spec fn textl(e: E, k: int) -> Seq<char> decreases e, k via textl_dec {
    if k <= 0 || k > e.children@.len() { e.text@ } else { textl(e, k - 1) + textl(e.children@[k - 1], e.children@[k - 1].children@.len() as int) }
}
#[via_fn] proof fn textl_dec(e: E, k: int) { if !(k <= 0 || k > e.children@.len()) { broadcast use vstd::std_specs::vec::axiom_vec_index_decreases; assert(decreases_to!(e.children => e.children[k - 1])); } }
pub open spec fn text(e: E) -> Seq<char> { textl(e, e.children@.len() as int) }
pub open spec fn at(e: E, n: Seq<char>) -> Option<Seq<char>> { if e.attributes@.dom().contains(n) { Some(e.attributes@[n]) } else { None } }
pub open spec fn ov(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn osv(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn oe(o: Option<&E>) -> Option<E> { match o { Some(s) => Some(*s), None => None } }
pub open spec fn pts(v: Seq<&E>, s: Seq<E>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < v.len() ==> *(#[trigger] v[i]) == s[i] }
//@fn XmlElement::attr
//@ ensures: ov(vx_ret) == at(*self, name@)
//@end
//@fn XmlElement::set_attr
//@ ensures: final(self).attributes@ == old(self).attributes@.insert(name@, value@), final(self).children == old(self).children, final(self).text == old(self).text, final(self).local_name == old(self).local_name
//@end
//@fn XmlElement::add_child
//@ ensures: final(self).children@ == old(self).children@.push(child), final(self).attributes == old(self).attributes, final(self).text == old(self).text, final(self).local_name == old(self).local_name
//@end
//@fn XmlElement::find
//@ opt: streq
//@ loop 0 inv: vx_r0 == None::<&E> ==> kidsl(self.children@, local_name@, vx_i0 as int).len() == 0, vx_s0@ == self.children@, vx_r0 is Some ==> vx_i0 < vx_s0@.len() && *(vx_r0->Some_0) == self.children@[vx_i0 as int] && self.children@[vx_i0 as int].local_name@ == local_name@ && kidsl(self.children@, local_name@, vx_i0 as int).len() == 0
//@ loop 0 post: proof { if vx_r0 is Some { lemma_kidsl(self.children@, local_name@, vx_i0 + 1, self.children@.len() as int); assert(kidsl(self.children@, local_name@, vx_i0 + 1)[0] == self.children@[vx_i0 as int]); } }
//@ ensures: oe(vx_ret) == kid(*self, local_name@)
//@end
//@fn XmlElement::find_all
//@ opt: streq
//@ loop 0 inv: tyv::<&E>(vx_r0), vx_s0@ == self.children@, pts(vx_r0@, kidsl(self.children@, local_name@, vx_i0 as int))
//@ ensures: pts(vx_ret@, kids(*self, local_name@))
//@end
//@fn XmlElement::find_descendant
//@ opt: streq
//@ decreases: *self
//@ loop 0 inv: vx_s0@ == self.children@, vx_s0 == &self.children, descl(*self, local_name@, vx_i0 as int).len() == 0
//@ loop 0 begin: proof { broadcast use vstd::std_specs::vec::axiom_vec_index_decreases; assert(decreases_to!(self.children => self.children[vx_i0 as int])); lemma_descl(*self, local_name@, vx_i0 + 1, self.children@.len() as int); let c = self.children@[vx_i0 as int]; reveal_with_fuel(descl, 2); assert(descl(*self, local_name@, vx_i0 + 1) =~= (if c.local_name@ == local_name@ { seq![c] } else { Seq::<E>::empty() }) + descl(c, local_name@, c.children@.len() as int)); if c.local_name@ == local_name@ { assert(descl(*self, local_name@, vx_i0 + 1)[0] == c); } else if desc(c, local_name@).len() > 0 { assert(descl(*self, local_name@, vx_i0 + 1)[0] == desc(c, local_name@)[0]); } }
//@ ensures: oe(vx_ret) == below(*self, local_name@)
//@end
//@fn XmlElement::find_all_descendants
//@ ensures: pts(vx_ret@, desc(*self, local_name@))
//@end
//@fn XmlElement::collect_descendants
//@ opt: streq
//@ decreases: *self
//@ begin: let ghost vx_old = results@;
//@ loop 0 inv: vx_s0@ == self.children@, vx_s0 == &self.children, results@.len() == vx_old.len() + descl(*self, local_name@, vx_i0 as int).len(), forall|i: int| 0 <= i < vx_old.len() ==> *(#[trigger] results@[i]) == *vx_old[i], forall|i: int| 0 <= i < descl(*self, local_name@, vx_i0 as int).len() ==> *results@[vx_old.len() + i] == #[trigger] descl(*self, local_name@, vx_i0 as int)[i]
//@ loop 0 begin: proof { broadcast use vstd::std_specs::vec::axiom_vec_index_decreases; assert(decreases_to!(self.children => self.children[vx_i0 as int])); reveal_with_fuel(descl, 2); } let ghost vx_mid = results@; let ghost vx_k = vx_i0 as int;
//@ loop 0 end: proof { let a = descl(*self, local_name@, vx_k); let c = self.children@[vx_k]; let m = if c.local_name@ == local_name@ { seq![c] } else { Seq::<E>::empty() }; let d = descl(c, local_name@, c.children@.len() as int); let b = descl(*self, local_name@, vx_k + 1); assert(b == a + m + d); assert forall|i: int| 0 <= i < b.len() implies *results@[vx_old.len() + i] == #[trigger] b[i] by { if i < a.len() { assert(b[i] == a[i]); assert(*results@[vx_old.len() + i] == *vx_mid[vx_old.len() + i]); } else if i < a.len() + m.len() { } else { assert(b[i] == d[i - a.len() - m.len()]); } } }
//@ ensures: final(results)@.len() == old(results)@.len() + desc(*self, local_name@).len(), forall|i: int| 0 <= i < old(results)@.len() ==> *(#[trigger] final(results)@[i]) == *old(results)@[i], forall|i: int| 0 <= i < desc(*self, local_name@).len() ==> *final(results)@[old(results)@.len() + i] == #[trigger] desc(*self, local_name@)[i]
//@end
//@fn XmlElement::text_content
//@ decreases: *self
//@ loop 0 inv: vx_s0@ == self.children@, vx_s0 == &self.children, result@ == textl(*self, vx_i0 as int)
//@ loop 0 begin: proof { broadcast use vstd::std_specs::vec::axiom_vec_index_decreases; assert(decreases_to!(self.children => self.children[vx_i0 as int])); reveal_with_fuel(textl, 2); }
//@ ensures: vx_ret@ == text(*self)
//@end
//@fn XmlElement::is
//@ opt: streq
//@ ensures: vx_ret == (self.local_name@ == local_name@)
//@end
// ------------------------------------------------- what a slide says
pub struct RunV { pub text: Seq<char>, pub bold: bool, pub italic: bool, pub underline: bool, pub size: Option<u32>, pub color: Option<Seq<char>> }
pub struct ParaV { pub runs: Seq<RunV>, pub level: u32 }
pub open spec fn yes(o: Option<Seq<char>>) -> bool { o is Some && (o->Some_0 =~= S"1" || o->Some_0 =~= S"true") }
pub open spec fn num<T: VxParse>(o: Option<Seq<char>>, d: T) -> T { match o { Some(s) => match T::parsed(s) { Some(v) => v, None => d }, None => d } }
pub open spec fn tat(e: Option<E>, n: Seq<char>) -> Option<Seq<char>> { match e { Some(e) => at(e, n), None => None } }
pub open spec fn rtext(r: E) -> Seq<char> { match kid(r, S"t") { Some(t) => text(t), None => Seq::<char>::empty() } }
pub open spec fn run(r: E) -> RunV {
    let pr = kid(r, S"rPr");
    let fill = match pr { Some(p) => below(p, S"solidFill"), None => None };
    let clr = match fill { Some(f) => kid(f, S"srgbClr"), None => None };
    RunV { text: rtext(r), bold: yes(tat(pr, S"b")), italic: yes(tat(pr, S"i")), underline: tat(pr, S"u") is Some && !(tat(pr, S"u")->Some_0 =~= S"none"),
        size: match tat(pr, S"sz") { Some(s) => u32::parsed(s), None => None }, color: tat(clr, S"val") }
}
// runs with text, in order
pub open spec fn runs(v: Seq<E>, k: int) -> Seq<RunV> decreases k { if k <= 0 { Seq::<RunV>::empty() } else if rtext(v[k - 1]).len() > 0 { runs(v, k - 1).push(run(v[k - 1])) } else { runs(v, k - 1) } }
pub open spec fn para(p: E) -> ParaV { ParaV { runs: runs(kids(p, S"r"), kids(p, S"r").len() as int), level: num::<u32>(tat(kid(p, S"pPr"), S"lvl"), 0) } }
// paragraphs with text, in order
pub open spec fn paras(v: Seq<E>, k: int) -> Seq<ParaV> decreases k { if k <= 0 { Seq::<ParaV>::empty() } else if para(v[k - 1]).runs.len() > 0 { paras(v, k - 1).push(para(v[k - 1])) } else { paras(v, k - 1) } }
pub open spec fn body(b: E) -> Seq<ParaV> { paras(kids(b, S"p"), kids(b, S"p").len() as int) }
pub open spec fn rcat(v: Seq<RunV>, k: int) -> Seq<char> decreases k { if k <= 0 { Seq::<char>::empty() } else { rcat(v, k - 1) + v[k - 1].text } }
pub open spec fn ptext(p: ParaV) -> Seq<char> { rcat(p.runs, p.runs.len() as int) }
pub open spec fn pjoin(v: Seq<ParaV>, k: int) -> Seq<char> decreases k { if k <= 0 { Seq::<char>::empty() } else if k == 1 { ptext(v[0]) } else { pjoin(v, k - 1) + S"\n" + ptext(v[k - 1]) } }
pub open spec fn btext(v: Seq<ParaV>) -> Seq<char> { pjoin(v, v.len() as int) }
//@type oxml/slide.rs|TextRun
//@type oxml/slide.rs|SlideParser
//@type oxml/slide.rs|Paragraph
//@type oxml/slide.rs|ParsedShape
//@type oxml/slide.rs|ParsedTableCell
//@type oxml/slide.rs|ParsedTable
//@type oxml/slide.rs|ParsedSlide
pub open spec fn runv(t: TextRun) -> RunV { RunV { text: t.text@, bold: t.bold, italic: t.italic, underline: t.underline, size: t.font_size, color: osv(t.color) } }
pub open spec fn parav(p: Paragraph) -> ParaV { ParaV { runs: Seq::new(p.runs@.len(), |i: int| runv(p.runs@[i])), level: p.level } }
pub open spec fn parasv(v: Seq<Paragraph>) -> Seq<ParaV> { Seq::new(v.len(), |i: int| parav(v[i])) }
pub proof fn lemma_joined(v: Seq<String>, s: Seq<ParaV>, sep: Seq<char>, n: int)
    requires 0 <= n <= v.len(), v.len() == s.len(), sep =~= S"\n", forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == ptext(s[i])
    ensures joined(v, sep, n) == pjoin(s, n) decreases n
{ if n > 0 { lemma_joined(v, s, sep, n - 1); } }
//@fn oxml/slide.rs|TextRun::new
//@ ensures: runv(vx_ret) == (RunV { text: text@, bold: false, italic: false, underline: false, size: None, color: None })
//@end
//@fn oxml/slide.rs|Paragraph::new
//@ ensures: vx_ret.runs@.len() == 0, vx_ret.level == 0
//@end
//@fn oxml/slide.rs|Paragraph::text
//@ opt: collect_string
//@ loop 0 inv: vx_s0@ == self.runs@, vx_r0@ == rcat(parav(*self).runs, vx_i0 as int)
//@ ensures: vx_ret@ == ptext(parav(*self))
//@end
//@fn oxml/slide.rs|ParsedShape::new
//@ ensures: vx_ret.name@ == name@, vx_ret.shape_type is None, vx_ret.paragraphs@.len() == 0, vx_ret.x == 0, vx_ret.y == 0, vx_ret.width == 0, vx_ret.height == 0, !vx_ret.is_title, !vx_ret.is_body
//@end
//@fn oxml/slide.rs|ParsedShape::text
//@ loop 0 inv: tyv::<String>(vx_r0), vx_s0@ == self.paragraphs@, vx_r0@.len() == vx_i0, forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] vx_r0@[i])@ == ptext(parasv(self.paragraphs@)[i])
//@ loop 0 post: proof { lemma_joined(vx_r0@, parasv(self.paragraphs@), S"\n", vx_r0@.len() as int); }
//@ ensures: vx_ret@ == btext(parasv(self.paragraphs@))
//@end
//@fn oxml/slide.rs|SlideParser::parse_text_body
//@ opt: forvec
//@ loop 0 inv: pts(vx_s0@, kids(*tx_body, S"p")), parasv(paragraphs@) =~= paras(kids(*tx_body, S"p"), vx_i0 as int)
//@ loop 0 begin: let ghost vx_p = *vx_s0@[vx_i0 as int]; let ghost vx_old = paragraphs@;
//@ loop 0 end: proof { if parav(para).runs.len() > 0 { assert(parasv(vx_old.push(para)) =~= parasv(vx_old).push(parav(para))); } }
//@ loop 1 inv: pts(vx_s1@, kids(*p, S"r")), parav(para).level == self::para(*p).level, parav(para).runs =~= runs(kids(*p, S"r"), vx_i1 as int)
//@ loop 1 begin: let ghost vx_ro = para.runs@;
//@ loop 1 end: proof { assert(parav(para).runs =~= parav(Paragraph { runs: para.runs, level: 0 }).runs); }
//@ ensures: parasv(vx_ret@) =~= body(*tx_body)
//@end
// a shape: name, place, kind, text
pub struct ShapeV { pub name: Seq<char>, pub kind: Option<Seq<char>>, pub paras: Seq<ParaV>, pub x: i64, pub y: i64, pub w: i64, pub h: i64, pub title: bool, pub body: bool }
pub open spec fn shapev(s: ParsedShape) -> ShapeV { ShapeV { name: s.name@, kind: osv(s.shape_type), paras: parasv(s.paragraphs@), x: s.x, y: s.y, w: s.width, h: s.height, title: s.is_title, body: s.is_body } }
pub open spec fn ochild(e: Option<E>, n: Seq<char>) -> Option<E> { match e { Some(e) => kid(e, n), None => None } }
pub open spec fn shape(sp: E, title: bool, bdy: bool) -> ShapeV {
    let xfrm = below(sp, S"xfrm");
    ShapeV {
        name: match tat(below(sp, S"cNvPr"), S"name") { Some(n) => n, None => S"Shape" },
        kind: tat(below(sp, S"prstGeom"), S"prst"),
        paras: match below(sp, S"txBody") { Some(b) => body(b), None => Seq::<ParaV>::empty() },
        x: num::<i64>(tat(ochild(xfrm, S"off"), S"x"), 0), y: num::<i64>(tat(ochild(xfrm, S"off"), S"y"), 0),
        w: num::<i64>(tat(ochild(xfrm, S"ext"), S"cx"), 0), h: num::<i64>(tat(ochild(xfrm, S"ext"), S"cy"), 0),
        title: title, body: bdy,
    }
}
pub open spec fn named(sp: E, n: Seq<char>) -> bool { match tat(below(sp, S"cNvPr"), S"name") { Some(s) => has_sub(lower(s), n), None => false } }
// the type of the placeholder decides; without a placeholder the name of the shape
pub open spec fn titled(sp: E) -> bool {
    let ph = ochild(below(sp, S"nvPr"), S"ph");
    match tat(ph, S"type") { Some(t) => t =~= S"title" || t =~= S"ctrTitle", None => named(sp, S"title") }
}
pub open spec fn bodied(sp: E) -> bool {
    let ph = ochild(below(sp, S"nvPr"), S"ph");
    match ph { Some(ph) => match at(ph, S"type") { Some(t) => t =~= S"body" || t.len() == 0, None => true }, None => named(sp, S"content") }
}
pub proof fn lemma_sub_self(s: Seq<char>) ensures has_sub(s, s) { assert(s.subrange(0, s.len() as int) =~= s); assert(occurs_at(s, s, 0)); }
// `==` on parsed views, extensionally
pub open spec fn shape_eq(a: ShapeV, b: ShapeV) -> bool { a.name =~= b.name && a.kind == b.kind && a.paras =~= b.paras && a.x == b.x && a.y == b.y && a.w == b.w && a.h == b.h && a.title == b.title && a.body == b.body }
//@fn oxml/slide.rs|SlideParser::parse_shape
//@ ensures: vx_ret is Some, shape_eq(shapev(vx_ret->Some_0), shape(*sp, false, false))
//@end
//@fn oxml/slide.rs|SlideParser::is_title_shape
//@ begin: proof { lemma_sub_self(S"title"); }
//@ ensures: vx_ret == titled(*sp)
//@end
//@fn oxml/slide.rs|SlideParser::is_body_shape
//@ begin: proof { lemma_sub_self(S"content"); }
//@ ensures: vx_ret == bodied(*sp)
//@end
// a table: the cells of every row that has cells
pub struct CellV { pub text: Seq<char>, pub rows: u32, pub cols: u32 }
pub open spec fn cell(tc: E) -> CellV { CellV { text: match kid(tc, S"txBody") { Some(b) => btext(body(b)), None => Seq::<char>::empty() }, rows: num::<u32>(at(tc, S"rowSpan"), 1), cols: num::<u32>(at(tc, S"gridSpan"), 1) } }
pub open spec fn row(tr: E) -> Seq<CellV> { let t = kids(tr, S"tc"); Seq::new(t.len(), |i: int| cell(t[i])) }
pub open spec fn rows(v: Seq<E>, k: int) -> Seq<Seq<CellV>> decreases k { if k <= 0 { Seq::<Seq<CellV>>::empty() } else if row(v[k - 1]).len() > 0 { rows(v, k - 1).push(row(v[k - 1])) } else { rows(v, k - 1) } }
pub open spec fn table(gf: E) -> Option<Seq<Seq<CellV>>> { match below(gf, S"tbl") { Some(t) => { let r = rows(kids(t, S"tr"), kids(t, S"tr").len() as int); if r.len() > 0 { Some(r) } else { None } }, None => None } }
pub open spec fn cellv(c: ParsedTableCell) -> CellV { CellV { text: c.text@, rows: c.row_span, cols: c.col_span } }
pub open spec fn rowv(r: Seq<ParsedTableCell>) -> Seq<CellV> { Seq::new(r.len(), |i: int| cellv(r[i])) }
pub open spec fn tablev(t: ParsedTable) -> Seq<Seq<CellV>> { Seq::new(t.rows@.len(), |i: int| rowv(t.rows@[i]@)) }
//@fn oxml/slide.rs|ParsedTable::new
//@ ensures: vx_ret.rows@.len() == 0
//@end
//@fn oxml/slide.rs|ParsedTable::row_count
//@ ensures: vx_ret == tablev(*self).len()
//@end
//@fn oxml/slide.rs|ParsedTable::col_count
//@ ensures: vx_ret == (if tablev(*self).len() > 0 { tablev(*self)[0].len() as int } else { 0 })
//@end
//@fn oxml/slide.rs|SlideParser::parse_table_from_graphic_frame
//@ opt: forvec
//@ loop 0 inv: pts(vx_s0@, kids(*tbl, S"tr")), tablev(table) =~= rows(kids(*tbl, S"tr"), vx_i0 as int)
//@ loop 0 begin: let ghost vx_old = table.rows@; let ghost vx_tr = *vx_s0@[vx_i0 as int];
//@ loop 1 begin: let ghost vx_ro = row@; let ghost vx_k = vx_i1 as int; proof { assert(rowv(row@).len() == vx_k); }
//@ loop 1 end: proof { let t = self::row(*tr); assert(row@.len() == vx_k + 1); assert(t[vx_k] == cell(*tc)); assert(row@[vx_k].row_span == cell(*tc).rows); assert(row@[vx_k].text@ == cell(*tc).text); assert(cellv(row@[vx_k]) == t[vx_k]); assert(rowv(row@) =~= rowv(vx_ro).push(t[vx_k])); }
//@ loop 1 post: proof { assert(rowv(row@) =~= self::row(*tr)); }
//@ loop 2 inv: tyv::<String>(vx_r2), parasv(vx_s2@) =~= self::body(*body), vx_r2@.len() == vx_i2, forall|i: int| 0 <= i < vx_i2 ==> (#[trigger] vx_r2@[i])@ == ptext(parasv(vx_s2@)[i])
//@ loop 2 post: proof { lemma_joined(vx_r2@, parasv(vx_s2@), S"\n", vx_r2@.len() as int); }
//@ loop 1 inv: pts(vx_s1@, kids(*tr, S"tc")), rowv(row@) =~= self::row(*tr).take(vx_i1 as int)
//@ ensures: match vx_ret { Some(t) => table(*gf) is Some && tablev(t) =~= table(*gf)->Some_0, None => table(*gf) is None }
//@end
// the whole slide
pub open spec fn shapes(v: Seq<E>, k: int) -> Seq<ShapeV> decreases k { if k <= 0 { Seq::<ShapeV>::empty() } else { let e = v[k - 1]; shapes(v, k - 1).push(shape(e, titled(e), !titled(e) && bodied(e))) } }
// title: the text of the last title shape
pub open spec fn title(v: Seq<E>, k: int) -> Option<Seq<char>> decreases k { if k <= 0 { None } else if titled(v[k - 1]) { Some(btext(shape(v[k - 1], true, false).paras)) } else { title(v, k - 1) } }
pub open spec fn texts(v: Seq<ParaV>, k: int) -> Seq<Seq<char>> decreases k { if k <= 0 { Seq::<Seq<char>>::empty() } else if ptext(v[k - 1]).len() > 0 { texts(v, k - 1).push(ptext(v[k - 1])) } else { texts(v, k - 1) } }
pub open spec fn bullets(v: Seq<E>, k: int) -> Seq<Seq<char>> decreases k { if k <= 0 { Seq::<Seq<char>>::empty() } else if !titled(v[k - 1]) && bodied(v[k - 1]) { let p = shape(v[k - 1], false, true).paras; bullets(v, k - 1) + texts(p, p.len() as int) } else { bullets(v, k - 1) } }
pub open spec fn tables(v: Seq<E>, k: int) -> Seq<Seq<Seq<CellV>>> decreases k { if k <= 0 { Seq::<Seq<Seq<CellV>>>::empty() } else { match table(v[k - 1]) { Some(t) => tables(v, k - 1).push(t), None => tables(v, k - 1) } } }
pub struct SlideV { pub shapes: Seq<ShapeV>, pub tables: Seq<Seq<Seq<CellV>>>, pub title: Option<Seq<char>>, pub body: Seq<Seq<char>> }
pub open spec fn slidev_is(s: ParsedSlide, v: SlideV) -> bool {
    &&& s.shapes@.len() == v.shapes.len() && forall|i: int| 0 <= i < s.shapes@.len() ==> shape_eq(shapev(#[trigger] s.shapes@[i]), v.shapes[i])
    &&& s.tables@.len() == v.tables.len() && forall|i: int| 0 <= i < s.tables@.len() ==> tablev(#[trigger] s.tables@[i]) =~= v.tables[i]
    &&& osv(s.title) == v.title
    &&& s.body_text@.len() == v.body.len() && forall|i: int| 0 <= i < v.body.len() ==> (#[trigger] s.body_text@[i])@ == v.body[i]
}
pub open spec fn slide(root: E) -> SlideV {
    match below(root, S"spTree") {
        Some(t) => { let sp = kids(t, S"sp"); let gf = kids(t, S"graphicFrame"); SlideV { shapes: shapes(sp, sp.len() as int), title: title(sp, sp.len() as int), body: bullets(sp, sp.len() as int), tables: tables(gf, gf.len() as int) } },
        None => SlideV { shapes: Seq::<ShapeV>::empty(), title: None, body: Seq::<Seq<char>>::empty(), tables: Seq::<Seq<Seq<CellV>>>::empty() },
    }
}
// the XML parser (crate xml) is assumed: a text has at most one element tree
pub uninterp spec fn tree(xml: Seq<char>) -> Option<E>;
#[verifier::external_body] pub fn vx_xml(xml: &str) -> (r: Result<XmlElement, PptxError>) ensures r is Ok <==> tree(xml@) is Some, r is Ok ==> r->Ok_0 == tree(xml@)->Some_0 { unimplemented!() }
//@fn oxml/slide.rs|ParsedSlide::new
//@ ensures: vx_ret.shapes@.len() == 0, vx_ret.tables@.len() == 0, vx_ret.title is None, vx_ret.body_text@.len() == 0
//@end
//@fn oxml/slide.rs|SlideParser::parse
//@ opt: forvec
//@ sub: XmlParser :: parse_str =>> vx_xml
//@ loop 0 inv: pts(vx_s0@, kids(*sp_tree, S"sp")), slide.shapes@.len() == vx_i0, slidev_is(slide, SlideV { shapes: shapes(kids(*sp_tree, S"sp"), vx_i0 as int), title: title(kids(*sp_tree, S"sp"), vx_i0 as int), body: bullets(kids(*sp_tree, S"sp"), vx_i0 as int), tables: Seq::<Seq<Seq<CellV>>>::empty() })
//@ loop 0 begin: let ghost vx_k = vx_i0 as int; let ghost vx_old = slide;
//@ loop 0 end: proof { let v = kids(*sp_tree, S"sp"); let e = v[vx_k]; assert(e == *sp); let n = slide.shapes@; assert(n.len() == vx_k + 1); assert(shape_eq(shapev(n[vx_k]), self::shape(e, titled(e), !titled(e) && bodied(e)))); assert forall|i: int| 0 <= i < n.len() implies shape_eq(shapev(#[trigger] n[i]), shapes(v, vx_k + 1)[i]) by { if i < vx_k { assert(n[i] == vx_old.shapes@[i]); } } assert(osv(slide.title) == self::title(v, vx_k + 1)); if !titled(e) && bodied(e) { assert(parasv(n[vx_k].paragraphs@) =~= self::shape(e, false, true).paras); } }
//@ loop 1 inv: vx_s1@ == shape.paragraphs@, slide.shapes == vx_old.shapes, slide.title == vx_old.title, slide.tables == vx_old.tables, slide.body_text@.len() == vx_old.body_text@.len() + texts(parasv(shape.paragraphs@), vx_i1 as int).len(), forall|i: int| 0 <= i < vx_old.body_text@.len() ==> #[trigger] slide.body_text@[i] == vx_old.body_text@[i], forall|i: int| 0 <= i < texts(parasv(shape.paragraphs@), vx_i1 as int).len() ==> slide.body_text@[vx_old.body_text@.len() + i]@ == #[trigger] texts(parasv(shape.paragraphs@), vx_i1 as int)[i]
//@ loop 1 begin: let ghost vx_tk = texts(parasv(shape.paragraphs@), vx_i1 as int); let ghost vx_bt = slide.body_text@;
//@ loop 1 end: proof { assert(forall|i: int| 0 <= i < vx_tk.len() ==> vx_bt[vx_old.body_text@.len() + i]@ == #[trigger] vx_tk[i]); }
//@ loop 2 inv: pts(vx_s2@, kids(*sp_tree, S"graphicFrame")), slidev_is(slide, SlideV { shapes: shapes(kids(*sp_tree, S"sp"), kids(*sp_tree, S"sp").len() as int), title: title(kids(*sp_tree, S"sp"), kids(*sp_tree, S"sp").len() as int), body: bullets(kids(*sp_tree, S"sp"), kids(*sp_tree, S"sp").len() as int), tables: tables(kids(*sp_tree, S"graphicFrame"), vx_i2 as int) })
//@ loop 2 begin: let ghost vx_k = vx_i2 as int; let ghost vx_old = slide;
//@ loop 2 end: proof { let v = kids(*sp_tree, S"graphicFrame"); if self::table(v[vx_k]) is Some { let t = slide.tables@; assert forall|i: int| 0 <= i < t.len() implies tablev(#[trigger] t[i]) =~= tables(v, vx_k + 1)[i] by { if i < vx_old.tables@.len() { assert(t[i] == vx_old.tables@[i]); } } } }
//@ ensures: match vx_ret { Ok(s) => tree(xml@) is Some && slidev_is(s, self::slide(tree(xml@)->Some_0)), Err(_) => tree(xml@) is None }
//@end
// all_text: title, bullets, then the text of every shape that has some
pub open spec fn stexts(v: Seq<ParsedShape>, k: int) -> Seq<Seq<char>> decreases k { if k <= 0 { Seq::<Seq<char>>::empty() } else { let t = btext(parasv(v[k - 1].paragraphs@)); if t.len() > 0 { stexts(v, k - 1).push(t) } else { stexts(v, k - 1) } } }
pub open spec fn sv(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn one(o: Option<String>) -> Seq<Seq<char>> { match o { Some(t) => seq![t@], None => Seq::<Seq<char>>::empty() } }
#[verifier::external_body] pub fn vx_append(v: &mut Vec<String>, w: &Vec<String>) ensures sv(final(v)@) == sv(old(v)@) + sv(w@) { v.extend(w.clone()) }
//@fn oxml/slide.rs|ParsedSlide::all_text
//@ sub: texts . extend ( self . body_text . clone ( ) ) =>> vx_append ( & mut texts , & self . body_text )
//@ loop 0 pre: proof { assert(sv(texts@) =~= one(self.title) + sv(self.body_text@)); } let ghost vx_old = sv(texts@);
//@ loop 0 inv: tyv::<String>(texts), vx_s0@ == self.shapes@, sv(texts@) =~= vx_old + stexts(self.shapes@, vx_i0 as int)
//@ loop 0 begin: let ghost vx_t = texts@;
//@ loop 0 end: proof { if texts@.len() > vx_t.len() { assert(sv(texts@) =~= sv(vx_t).push(texts@.last()@)); } }
//@ ensures: sv(vx_ret@) =~= one(self.title) + sv(self.body_text@) + stexts(self.shapes@, self.shapes@.len() as int)
//@end
// ------------------------------------------------- the presentation
//@type opc/package.rs|Package retype parts=VxParts
//@fn opc/package.rs|Package::get_part
//@ opt: optmatch
//@ ensures: vx_ret is Some <==> self.parts@.dom().contains(path@), vx_ret is Some ==> vx_ret->Some_0@ == self.parts@[path@]
//@end
//@fn opc/package.rs|Package::part_paths
//@ sub: self . parts . keys ( ) . map ( | s | s . as_str ( ) ) . collect ( ) =>> self . parts . names ( )
//@ ensures: forall|k: Seq<char>| #[trigger] self.parts@.dom().contains(k) <==> exists|i: int| 0 <= i < vx_ret@.len() && (#[trigger] vx_ret@[i])@ == k, forall|i: int, j: int| 0 <= i < j < vx_ret@.len() ==> (#[trigger] vx_ret@[i])@ != (#[trigger] vx_ret@[j])@
//@end
//@type oxml/presentation.rs|PresentationInfo
//@type oxml/presentation.rs|PresentationReader
// text of bytes (lossy UTF-8): a function of them
pub uninterp spec fn utf8(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body] pub fn vx_utf8(b: &[u8]) -> (r: String) ensures r@ == utf8(b@) { unimplemented!() }
// the element tree of a part
pub open spec fn doc(p: Parts, n: Seq<char>) -> Option<E> { if p.dom().contains(n) { tree(utf8(p[n])) } else { None } }
// the relationship ids of the slide list
pub open spec fn ids(v: Seq<E>, k: int) -> Seq<Seq<char>> decreases k { if k <= 0 { Seq::<Seq<char>>::empty() } else { match at(v[k - 1], S"r:id") { Some(i) => ids(v, k - 1).push(i), None => ids(v, k - 1) } } }
pub open spec fn order(p: Parts) -> Seq<Seq<char>> {
    match doc(p, S"ppt/presentation.xml") { Some(root) => match kid(root, S"sldIdLst") { Some(l) => ids(kids(l, S"sldId"), kids(l, S"sldId").len() as int), None => Seq::<Seq<char>>::empty() }, None => Seq::<Seq<char>>::empty() }
}
//@fn oxml/presentation.rs|PresentationReader::slide_list
//@ sub: String :: from_utf8_lossy =>> vx_utf8
//@ sub: XmlParser :: parse_str =>> vx_xml
//@ opt: forvec
//@ loop 0 inv: tyv::<String>(vx_r0), pts(vx_s0@, kids(*list, S"sldId")), sv(vx_r0@) =~= ids(kids(*list, S"sldId"), vx_i0 as int)
//@ loop 0 begin: let ghost vx_o = vx_r0@;
//@ loop 0 end: proof { if vx_r0@.len() > vx_o.len() { assert(sv(vx_r0@) =~= sv(vx_o).push(vx_r0@.last()@)); } }
//@ ensures: sv(vx_ret@) =~= order(self.package.parts@)
//@end
// the slides the relationships of the presentation name: (relationship id, part)
pub struct SRel { pub id: Seq<char>, pub path: Seq<char> }
pub open spec fn srel(e: E) -> Option<SRel> {
    let t = match at(e, S"Type") { Some(t) => t, None => Seq::<char>::empty() };
    match (at(e, S"Id"), at(e, S"Target")) {
        (Some(i), Some(g)) => if has_sub(t, S"/slide") && !has_sub(t, S"Layout") && !has_sub(t, S"Master") { Some(SRel { id: i, path: if g.len() > 0 && g[0] == '/' { g.skip(1) } else { S"ppt/" + g } }) } else { None },
        _ => None,
    }
}
pub open spec fn srels(v: Seq<E>, k: int) -> Seq<SRel> decreases k { if k <= 0 { Seq::<SRel>::empty() } else { match srel(v[k - 1]) { Some(r) => srels(v, k - 1).push(r), None => srels(v, k - 1) } } }
pub open spec fn rels(p: Parts) -> Seq<SRel> { match doc(p, S"ppt/_rels/presentation.xml.rels") { Some(r) => srels(kids(r, S"Relationship"), kids(r, S"Relationship").len() as int), None => Seq::<SRel>::empty() } }
// place of an id in the slide list; behind it if it is not there
pub open spec fn pos(o: Seq<Seq<char>>, id: Seq<char>, k: int) -> int decreases o.len() - k { if k < 0 || k >= o.len() { o.len() as int } else if o[k] =~= id { k } else { pos(o, id, k + 1) } }
pub proof fn lemma_pos(o: Seq<Seq<char>>, id: Seq<char>, k: int) requires 0 <= k <= o.len() ensures k <= pos(o, id, k) <= o.len(), pos(o, id, k) < o.len() ==> o[pos(o, id, k)] == id, forall|i: int| k <= i < pos(o, id, k) ==> !(#[trigger] o[i] =~= id) decreases o.len() - k { if k < o.len() && !(o[k] =~= id) { lemma_pos(o, id, k + 1); } }
// paths are those of the relationships, ordered by the slide list
pub open spec fn listed(paths: Seq<Seq<char>>, r: Seq<SRel>, o: Seq<Seq<char>>) -> bool {
    exists|p: Seq<int>| #[trigger] is_perm(p, r.len() as int) && paths.len() == r.len() && (forall|i: int| 0 <= i < p.len() ==> #[trigger] paths[i] == r[p[i]].path)
        && (forall|i: int, j: int| 0 <= i < j < p.len() ==> pos(o, r[#[trigger] p[i]].id, 0) <= pos(o, r[#[trigger] p[j]].id, 0))
}
// with a slide list naming every slide once: slide k is the part of the k-th id of the list
pub proof fn theorem_order(paths: Seq<Seq<char>>, r: Seq<SRel>, o: Seq<Seq<char>>, k: int)
    requires listed(paths, r, o), r.len() == o.len(), 0 <= k < o.len(),
        forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).id != (#[trigger] r[j]).id,
        forall|i: int| 0 <= i < r.len() ==> pos(o, (#[trigger] r[i]).id, 0) < o.len()
    ensures paths.len() == o.len(), exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).id == o[k] && paths[k] == r[i].path
{
    let n = r.len() as int;
    let p = choose|p: Seq<int>| #[trigger] is_perm(p, r.len() as int) && paths.len() == r.len() && (forall|i: int| 0 <= i < p.len() ==> #[trigger] paths[i] == r[p[i]].path)
        && (forall|i: int, j: int| 0 <= i < j < p.len() ==> pos(o, r[#[trigger] p[i]].id, 0) <= pos(o, r[#[trigger] p[j]].id, 0));
    let f = Seq::new(n as nat, |i: int| pos(o, r[p[i]].id, 0));
    assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] f[i] < #[trigger] f[j] by {
        lemma_pos(o, r[p[i]].id, 0); lemma_pos(o, r[p[j]].id, 0);
        assert(f[i] <= f[j]); assert(p[i] != p[j]);
        if f[i] == f[j] { assert(r[p[i]].id == r[p[j]].id); if p[i] < p[j] { } else { } }
    }
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] f[i] < n by { lemma_pos(o, r[p[i]].id, 0); assert(pos(o, r[p[i]].id, 0) < o.len()); }
    lemma_increasing(f, n, k);
    lemma_pos(o, r[p[k]].id, 0);
    assert(f[k] == k);
    assert(r[p[k]].id == o[k] && paths[k] == r[p[k]].path);
}
pub proof fn lemma_increasing(f: Seq<int>, n: int, k: int)
    requires f.len() == n, 0 <= k < n, forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] f[i] < #[trigger] f[j], forall|i: int| 0 <= i < n ==> 0 <= #[trigger] f[i] < n
    ensures f[k] == k
{
    lemma_low(f, n, k); lemma_high(f, n, k);
}
pub proof fn lemma_low(f: Seq<int>, n: int, k: int)
    requires f.len() == n, 0 <= k < n, forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] f[i] < #[trigger] f[j], forall|i: int| 0 <= i < n ==> 0 <= #[trigger] f[i] < n
    ensures f[k] >= k decreases k
{ if k > 0 { lemma_low(f, n, k - 1); assert(f[k - 1] < f[k]); } }
pub proof fn lemma_high(f: Seq<int>, n: int, k: int)
    requires f.len() == n, 0 <= k < n, forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] f[i] < #[trigger] f[j], forall|i: int| 0 <= i < n ==> 0 <= #[trigger] f[i] < n
    ensures f[k] <= k decreases n - k
{ if k < n - 1 { lemma_high(f, n, k + 1); assert(f[k] < f[k + 1]); } else { assert(f[k] < n); } }
// without usable relationships: exactly the parts named like slides, each once
pub open spec fn slidelike(k: Seq<char>) -> bool { has_prefix(k, S"ppt/slides/slide") && has_suffix(k, S".xml") && !has_sub(k, S"_rels") }
pub open spec fn exactly_parts(v: Seq<String>, p: Parts) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i])@ != (#[trigger] v[j])@
    &&& forall|k: Seq<char>| (p.dom().contains(k) && slidelike(k)) <==> #[trigger] has_text(v, k)
}
pub open spec fn has_text(v: Seq<String>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == k }
pub proof fn lemma_perm_parts(v: Seq<String>, w: Seq<String>, m: Parts)
    requires exactly_parts(v, m), exists|p: Seq<int>| #[trigger] is_perm(p, v.len() as int) && w.len() == v.len() && (forall|i: int| 0 <= i < p.len() ==> #[trigger] w[i] == v[p[i]])
    ensures exactly_parts(w, m)
{
    let p = choose|p: Seq<int>| #[trigger] is_perm(p, v.len() as int) && w.len() == v.len() && (forall|i: int| 0 <= i < p.len() ==> #[trigger] w[i] == v[p[i]]);
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i])@ != (#[trigger] w[j])@ by { assert(p[i] != p[j]); if p[i] < p[j] { assert(v[p[i]]@ != v[p[j]]@); } else { assert(v[p[j]]@ != v[p[i]]@); } }
    assert forall|k: Seq<char>| (m.dom().contains(k) && slidelike(k)) <==> #[trigger] has_text(w, k) by {
        if has_text(w, k) { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i])@ == k; assert(v[p[i]]@ == k); assert(has_text(v, k)); }
        if has_text(v, k) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == k; assert(p.contains(i)); let j = choose|j: int| 0 <= j < p.len() && p[j] == i; assert(w[j]@ == k); }
    }
}
pub open spec fn among(names: Seq<&str>, n: int, k: Seq<char>) -> bool { exists|j: int| 0 <= j < n && (#[trigger] names[j])@ == k && slidelike(names[j]@) }
// the parts named like slides among the first n names
pub open spec fn some_parts(v: Seq<String>, names: Seq<&str>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> among(names, n, (#[trigger] v[i])@)
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i])@ != (#[trigger] v[j])@
    &&& forall|j: int| 0 <= j < n && slidelike((#[trigger] names[j])@) ==> has_text(v, names[j]@)
}
pub proof fn lemma_some(v: Seq<String>, x: String, names: Seq<&str>, n: int)
    requires some_parts(v, names, n), 0 <= n < names.len(), forall|i: int, j: int| 0 <= i < j < names.len() ==> (#[trigger] names[i])@ != (#[trigger] names[j])@
    ensures !slidelike(names[n]@) ==> some_parts(v, names, n + 1), slidelike(names[n]@) && x@ == names[n]@ ==> some_parts(v.push(x), names, n + 1)
{
    assert forall|i: int| 0 <= i < v.len() implies among(names, n + 1, (#[trigger] v[i])@) by { let j = choose|j: int| 0 <= j < n && (#[trigger] names[j])@ == v[i]@ && slidelike(names[j]@); }
    if slidelike(names[n]@) && x@ == names[n]@ {
        let w = v.push(x);
        assert forall|i: int| 0 <= i < w.len() implies among(names, n + 1, (#[trigger] w[i])@) by { if i < v.len() { assert(among(names, n, v[i]@)); let j = choose|j: int| 0 <= j < n && (#[trigger] names[j])@ == v[i]@ && slidelike(names[j]@); assert(names[j]@ == w[i]@); } else { assert(names[n]@ == w[i]@); } }
        assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i])@ != (#[trigger] w[j])@ by { if j == v.len() { assert(among(names, n, v[i]@)); let q = choose|q: int| 0 <= q < n && (#[trigger] names[q])@ == v[i]@ && slidelike(names[q]@); assert(names[q]@ != names[n]@); assert(w[i] == v[i]); } else { assert(w[i] == v[i] && w[j] == v[j]); } }
        assert forall|j: int| 0 <= j < n + 1 && slidelike((#[trigger] names[j])@) implies has_text(w, names[j]@) by { if j < n { assert(has_text(v, names[j]@)); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == names[j]@; assert(w[i]@ == names[j]@); } else { assert(w[v.len() as int]@ == names[n]@); } }
    }
}
pub proof fn lemma_exact(v: Seq<String>, names: Seq<&str>, m: Parts)
    requires some_parts(v, names, names.len() as int), forall|k: Seq<char>| #[trigger] m.dom().contains(k) <==> exists|i: int| 0 <= i < names.len() && (#[trigger] names[i])@ == k
    ensures exactly_parts(v, m)
{
    assert forall|k: Seq<char>| (m.dom().contains(k) && slidelike(k)) <==> #[trigger] has_text(v, k) by {
        if has_text(v, k) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == k; assert(among(names, names.len() as int, v[i]@)); let j = choose|j: int| 0 <= j < names.len() && (#[trigger] names[j])@ == v[i]@ && slidelike(names[j]@); assert(names[j]@ == k); }
        if m.dom().contains(k) && slidelike(k) { let j = choose|j: int| 0 <= j < names.len() && (#[trigger] names[j])@ == k; assert(has_text(v, names[j]@)); }
    }
}
// the two sorts of the code: by number of the relationship id (a closure the extraction replaces: any rearrangement will do), by place
#[verifier::external_body] pub fn vx_sort_by_rid(v: &mut Vec<(String, String)>)
    ensures exists|p: Seq<int>| #[trigger] is_perm(p, old(v)@.len() as int) && final(v)@.len() == old(v)@.len() && (forall|i: int| 0 <= i < p.len() ==> #[trigger] final(v)@[i] == old(v)@[p[i]])
{ unimplemented!() }
#[verifier::external_body] pub fn vx_sort_names(v: &mut Vec<String>) ensures exists|p: Seq<int>| #[trigger] is_perm(p, old(v)@.len() as int) && final(v)@.len() == old(v)@.len() && (forall|i: int| 0 <= i < p.len() ==> #[trigger] final(v)@[i] == old(v)@[p[i]]) { unimplemented!() }
pub open spec fn relv(v: Seq<(String, String)>) -> Seq<SRel> { Seq::new(v.len(), |i: int| SRel { id: v[i].0@, path: v[i].1@ }) }
pub open spec fn permuted(a: Seq<(String, String)>, b: Seq<(String, String)>, p: Seq<int>) -> bool { is_perm(p, a.len() as int) && b.len() == a.len() && (forall|i: int| 0 <= i < p.len() ==> #[trigger] b[i] == a[p[i]]) }
pub proof fn lemma_listed(a: Seq<(String, String)>, b: Seq<(String, String)>, c: Seq<(String, String)>, keys: Seq<usize>, o: Seq<Seq<char>>, paths: Seq<Seq<char>>)
    requires exists|p: Seq<int>| #[trigger] is_perm(p, a.len() as int) && b.len() == a.len() && (forall|i: int| 0 <= i < p.len() ==> #[trigger] b[i] == a[p[i]]),
        exists|p: Seq<int>| #[trigger] is_perm(p, b.len() as int) && c.len() == b.len() && (forall|i: int| 0 <= i < p.len() ==> #[trigger] c[i] == b[p[i]]) && (forall|i: int, j: int| 0 <= i < j < p.len() ==> keys[#[trigger] p[i]] <= keys[#[trigger] p[j]]),
        keys.len() == b.len(), forall|i: int| 0 <= i < b.len() ==> #[trigger] keys[i] == pos(o, b[i].0@, 0), c.len() == b.len(),
        paths.len() == c.len(), forall|i: int| 0 <= i < c.len() ==> #[trigger] paths[i] == c[i].1@
    ensures listed(paths, relv(a), o)
{
    let p = choose|p: Seq<int>| #[trigger] is_perm(p, a.len() as int) && b.len() == a.len() && (forall|i: int| 0 <= i < p.len() ==> #[trigger] b[i] == a[p[i]]);
    let q = choose|p: Seq<int>| #[trigger] is_perm(p, b.len() as int) && c.len() == b.len() && (forall|i: int| 0 <= i < p.len() ==> #[trigger] c[i] == b[p[i]]) && (forall|i: int, j: int| 0 <= i < j < p.len() ==> keys[#[trigger] p[i]] <= keys[#[trigger] p[j]]);
    let n = a.len() as int; let r = Seq::new(n as nat, |i: int| p[q[i]]);
    assert(is_perm(r, n)) by {
        assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] r[i] != #[trigger] r[j] by { assert(q[i] != q[j]); if q[i] < q[j] { assert(p[q[i]] != p[q[j]]); } else { assert(p[q[j]] != p[q[i]]); } }
        assert forall|k: int| #![trigger r.contains(k)] 0 <= k < n implies r.contains(k) by { assert(p.contains(k)); let i = choose|i: int| 0 <= i < p.len() && p[i] == k; assert(q.contains(i)); let j = choose|j: int| 0 <= j < q.len() && q[j] == i; assert(r[j] == k); }
    }
    let s = relv(a);
    assert(is_perm(r, s.len() as int));
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] paths[i] == s[r[i]].path by { assert(c[i] == b[q[i]]); assert(b[q[i]] == a[p[q[i]]]); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies pos(o, s[#[trigger] r[i]].id, 0) <= pos(o, s[#[trigger] r[j]].id, 0) by { assert(keys[q[i]] <= keys[q[j]]); assert(b[q[i]] == a[p[q[i]]]); assert(b[q[j]] == a[p[q[j]]]); }
}
//@fn oxml/presentation.rs|PresentationReader::parse_presentation_xml
//@ opt: forvec
//@ opt: streq
//@ sub: String :: from_utf8_lossy =>> vx_utf8
//@ sub: XmlParser :: parse_str =>> vx_xml
//@ sub: slide_rels . sort_by ( | a , b | { let num_a : u32 = a . 0 . trim_start_matches ( "rId" ) . parse ( ) . unwrap_or ( 0 ) ; let num_b : u32 = b . 0 . trim_start_matches ( "rId" ) . parse ( ) . unwrap_or ( 0 ) ; num_a . cmp ( & num_b ) } ) =>> vx_sort_by_rid ( & mut slide_rels )
//@ sub: slide_rels . into_iter ( ) . map ( | ( _ , path ) | path ) =>> slide_rels . iter ( ) . map ( | ( _ , path ) | path . clone ( ) )
//@ sub: paths . into_iter ( ) =>> paths . iter ( )
//@ sub: . map ( | s | s . to_string ( ) ) =>> . map ( | s | ( * s ) . to_string ( ) )
//@ sub: slides . sort_by_key ( | p | ( p . len ( ) , p . clone ( ) ) ) =>> vx_sort_names ( & mut slides )
//@ requires: old(self).slide_paths@.len() == 0
//@ ensures: vx_ret is Ok, final(self).package == old(self).package, final(self).info.slide_count == final(self).slide_paths@.len(), rels(old(self).package.parts@).len() > 0 ==> listed(sv(final(self).slide_paths@), rels(old(self).package.parts@), order(old(self).package.parts@)), rels(old(self).package.parts@).len() == 0 ==> exactly_parts(final(self).slide_paths@, old(self).package.parts@)
//@ begin: let ghost mut vx_g0: Seq<(String, String)> = Seq::empty(); let ghost mut vx_g1: Seq<(String, String)> = Seq::empty(); let ghost mut vx_gk: Seq<usize> = Seq::empty(); let ghost mut vx_g4: Seq<String> = Seq::empty();
//@ loop 0 inv: pts(vx_s0@, kids(root, S"Relationship")), relv(slide_rels@) =~= srels(kids(root, S"Relationship"), vx_i0 as int)
//@ loop 0 begin: let ghost vx_o = slide_rels@; let ghost vx_e = *vx_s0@[vx_i0 as int];
//@ loop 0 end: proof { if slide_rels@.len() > vx_o.len() { assert(relv(slide_rels@) =~= relv(vx_o).push(srel(vx_e)->Some_0)); } }
//@ loop 0 post: proof { vx_g0 = slide_rels@; }
//@ loop 1 inv: vx_s1@ == slide_rels@, forall|i: int| 0 <= i < vx_i1 ==> #[trigger] vx_r1@[i] == pos(sv(order@), slide_rels@[i].0@, 0)
//@ loop 1 post: proof { vx_g1 = slide_rels@; vx_gk = vx_r1@; }
//@ loop 2 inv: vx_s2@ == order@, vx_r2 is None ==> pos(sv(order@), id@, 0) == pos(sv(order@), id@, vx_i2 as int), vx_r2 is Some ==> vx_r2->Some_0 == vx_i2 && vx_i2 < order@.len() && pos(sv(order@), id@, 0) == vx_i2
//@ loop 3 inv: tyv::<String>(vx_r3), vx_s3@ == slide_rels@, vx_r3@.len() == vx_i3, forall|i: int| 0 <= i < vx_i3 ==> (#[trigger] vx_r3@[i])@ == slide_rels@[i].1@
//@ loop 3 post: proof { lemma_listed(vx_g0, vx_g1, slide_rels@, vx_gk, sv(order@), sv(vx_r3@)); }
//@ loop 4 inv: tyv::<String>(vx_r4), vx_s4@ == paths@, some_parts(vx_r4@, paths@, vx_i4 as int), forall|i: int, j: int| 0 <= i < j < paths@.len() ==> (#[trigger] paths@[i])@ != (#[trigger] paths@[j])@
//@ loop 4 begin: let ghost vx_o4 = vx_r4@; let ghost vx_k4 = vx_i4 as int;
//@ loop 4 end: proof { if slidelike(paths@[vx_k4]@) { lemma_some(vx_o4, vx_r4@.last(), paths@, vx_k4); assert(vx_r4@ =~= vx_o4.push(vx_r4@.last())); } else { lemma_some(vx_o4, arbitrary(), paths@, vx_k4); } }
//@ loop 4 post: proof { vx_g4 = vx_r4@; lemma_exact(vx_r4@, paths@, self.package.parts@); }
//@ end: proof { if rels(old(self).package.parts@).len() == 0 { lemma_perm_parts(vx_g4, self.slide_paths@, self.package.parts@); } }
//@end
// ------------------------------------------------- document properties
pub open spec fn prop(p: Parts, n: Seq<char>) -> Option<Seq<char>> { match doc(p, S"docProps/core.xml") { Some(r) => match below(r, n) { Some(e) => if text(e).len() > 0 { Some(text(e)) } else { None }, None => None }, None => None } }
//@fn oxml/presentation.rs|PresentationReader::parse_core_properties
//@ sub: String :: from_utf8_lossy =>> vx_utf8
//@ sub: XmlParser :: parse_str =>> vx_xml
//@ requires: osv(old(self).info.title) is None, osv(old(self).info.creator) is None, osv(old(self).info.last_modified_by) is None, osv(old(self).info.created) is None, osv(old(self).info.modified) is None, old(self).info.revision is None
//@ ensures:
//@   vx_ret is Ok, final(self).package == old(self).package, final(self).slide_paths == old(self).slide_paths,
//@   osv(final(self).info.title) == prop(old(self).package.parts@, S"title"), osv(final(self).info.creator) == prop(old(self).package.parts@, S"creator"),
//@   osv(final(self).info.last_modified_by) == prop(old(self).package.parts@, S"lastModifiedBy"), osv(final(self).info.created) == prop(old(self).package.parts@, S"created"), osv(final(self).info.modified) == prop(old(self).package.parts@, S"modified"),
//@   final(self).info.revision == (match doc(old(self).package.parts@, S"docProps/core.xml") { Some(r) => match below(r, S"revision") { Some(e) => u32::parsed(text(e)), None => None }, None => None }),
//@end
//@fn oxml/presentation.rs|PresentationReader::parse_structure
//@ requires: osv(old(self).info.title) is None, osv(old(self).info.creator) is None, osv(old(self).info.last_modified_by) is None, osv(old(self).info.created) is None, osv(old(self).info.modified) is None, old(self).info.revision is None, old(self).slide_paths@.len() == 0
//@ ensures: vx_ret is Ok, final(self).package == old(self).package, final(self).info.slide_count == final(self).slide_paths@.len(), rels(old(self).package.parts@).len() > 0 ==> listed(sv(final(self).slide_paths@), rels(old(self).package.parts@), order(old(self).package.parts@)), rels(old(self).package.parts@).len() == 0 ==> exactly_parts(final(self).slide_paths@, old(self).package.parts@)
//@end
//@fn oxml/presentation.rs|PresentationReader::slide_count
//@ ensures: vx_ret == self.slide_paths@.len()
//@end
// the slide read from a part
pub open spec fn read_ok(p: Parts, path: Seq<char>, s: ParsedSlide) -> bool { doc(p, path) is Some && slidev_is(s, slide(doc(p, path)->Some_0)) }
//@fn oxml/presentation.rs|PresentationReader::get_slide
//@ sub: String :: from_utf8_lossy =>> vx_utf8
//@ sub: messages :: slide_not_found ( index ) =>> String :: new ( )
//@ sub: messages :: slide_file_not_found ( path ) =>> String :: new ( )
//@ ensures: match vx_ret { Ok(s) => index < self.slide_paths@.len() && doc(self.package.parts@, self.slide_paths@[index as int]@) is Some && slidev_is(s, self::slide(doc(self.package.parts@, self.slide_paths@[index as int]@)->Some_0)), Err(_) => index >= self.slide_paths@.len() || doc(self.package.parts@, self.slide_paths@[index as int]@) is None }
//@end
//@fn oxml/presentation.rs|PresentationReader::get_all_slides
//@ loop 0 begin: let ghost vx_os = slides@;
//@ loop 0 end: proof { assert(forall|i: int| 0 <= i < vx_os.len() ==> #[trigger] slides@[i] == vx_os[i]); let k = vx_os.len() as int; assert(read_ok(self.package.parts@, self.slide_paths@[k]@, slides@[k])); assert(slides@ =~= vx_os.push(slides@[k])); }
//@ loop 0 inv: tyv::<ParsedSlide>(slides), vx_e0 == self.slide_paths@.len(), slides@.len() == vx_i0, forall|i: int| 0 <= i < vx_i0 ==> read_ok(self.package.parts@, self.slide_paths@[i]@, #[trigger] slides@[i])
//@ ensures: vx_ret is Ok ==> vx_ret->Ok_0@.len() == self.slide_paths@.len() && forall|i: int| 0 <= i < self.slide_paths@.len() ==> read_ok(self.package.parts@, self.slide_paths@[i]@, #[trigger] vx_ret->Ok_0@[i])
//@end
//%extras
} // verus!
fn main() {}
