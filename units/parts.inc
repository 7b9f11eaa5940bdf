verus! {
// name -> bytes table (std HashMap, by its documented meaning)
pub type Parts = Map<Seq<char>, Seq<u8>>;
#[verifier::external_body] pub struct VxParts { m: std::collections::HashMap<String, Vec<u8>> }
impl VxParts {
    pub uninterp spec fn view(&self) -> Parts;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, Seq<u8>>::empty() { VxParts { m: std::collections::HashMap::new() } }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&Vec<u8>>) ensures r is Some <==> self@.dom().contains(k@), r is Some ==> (*r->Some_0)@ == self@[k@] { self.m.get(k) }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: Vec<u8>) -> (r: Option<Vec<u8>>) ensures final(self)@ == old(self)@.insert(k@, v@) { self.m.insert(k, v) }
    #[verifier::external_body] pub fn remove(&mut self, k: &str) -> (r: Option<Vec<u8>>) ensures final(self)@ == old(self)@.remove(k@), r is Some <==> old(self)@.dom().contains(k@), r is Some ==> r->Some_0@ == old(self)@[k@] { self.m.remove(k) }
    #[verifier::external_body] pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.dom().contains(k@) { self.m.contains_key(k) }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures self@.dom().finite(), r == self@.dom().len() { self.m.len() }
    // the entries, each exactly once, in the (unspecified) order of iteration
    #[verifier::external_body] pub fn entries(&self) -> (r: Vec<(String, Vec<u8>)>) ensures lists(r@, self@) { unimplemented!() }
    #[verifier::external_body] pub fn names(&self) -> (r: Vec<&str>)
        ensures forall|k: Seq<char>| #[trigger] self@.dom().contains(k) <==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == k, forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i])@ != (#[trigger] r@[j])@
    { unimplemented!() }
}
pub open spec fn lists(v: Seq<(String, Vec<u8>)>, m: Parts) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> m.dom().contains((#[trigger] v[i]).0@) && m[v[i].0@] == v[i].1@
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0@ != (#[trigger] v[j]).0@
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == k
}
} // verus!
