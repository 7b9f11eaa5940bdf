//@include prelude.rs
//@include parts.inc
verus! {
// ---- zip archives, by the documented meaning of the zip crate
pub struct VxError { pub code: u8 }
pub struct Entry { pub name: Seq<char>, pub bytes: Seq<u8> }
pub open spec fn isdir(name: Seq<char>) -> bool { name.len() > 0 && (name.last() == '/' || name.last() == '\\') }
#[verifier::external_body] pub struct VxReader { r: u8 }
#[verifier::external_body] pub struct VxWriter { w: u8 }
impl VxReader { pub uninterp spec fn entries(&self) -> Seq<Entry>; }
#[verifier::external_body] pub struct VxArchive { a: u8 }
#[verifier::external_body] pub struct VxFile { f: u8 }
impl VxArchive {
    pub uninterp spec fn view(&self) -> Seq<Entry>;
    #[verifier::external_body] pub fn new(r: VxReader) -> (x: Result<VxArchive, VxError>) ensures x is Ok ==> x->Ok_0@ == r.entries() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (n: usize) ensures n == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn by_index(&mut self, i: usize) -> (x: Result<VxFile, VxError>) ensures final(self)@ == old(self)@, x is Ok ==> i < old(self)@.len() && x->Ok_0@ == old(self)@[i as int] { unimplemented!() }
}
impl VxFile {
    pub uninterp spec fn view(&self) -> Entry;
    #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) ensures r == isdir(self@.name) { unimplemented!() }
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self@.name { unimplemented!() }
    // reads what is left: everything, for a fresh entry
    #[verifier::external_body] pub fn read_to_end(&mut self, v: &mut Vec<u8>) -> (r: Result<usize, VxError>) ensures final(self)@ == old(self)@, r is Ok ==> final(v)@ == old(v)@ + old(self)@.bytes { unimplemented!() }
}
#[verifier::external_body] pub struct VxZip { z: u8 }
impl VxZip {
    pub uninterp spec fn view(&self) -> Seq<Entry>;
    #[verifier::external_body] pub fn new(w: VxWriter) -> (z: VxZip) ensures z@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn start_file(&mut self, name: &str, o: VxOptions) -> (r: Result<(), VxError>) ensures r is Ok ==> final(self)@ == old(self)@.push(Entry { name: name@, bytes: Seq::empty() }) { unimplemented!() }
    #[verifier::external_body] pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), VxError>) requires old(self)@.len() > 0 ensures r is Ok ==> final(self)@ == old(self)@.drop_last().push(Entry { name: old(self)@.last().name, bytes: old(self)@.last().bytes + b@ }) { unimplemented!() }
    // finishing a package's archive is only allowed when it holds exactly the package
    #[verifier::external_body] pub fn finish(&mut self, p: &VxParts) -> (r: Result<VxWriter, VxError>) requires holds(old(self)@, p@) { unimplemented!() }
}
pub struct VxOptions { pub o: u8 }
impl VxOptions { #[verifier::external_body] pub fn default() -> VxOptions { VxOptions { o: 0 } } }
pub open spec fn holds(z: Seq<Entry>, m: Parts) -> bool {
    &&& forall|i: int| 0 <= i < z.len() ==> m.dom().contains((#[trigger] z[i]).name) && m[z[i].name] == z[i].bytes
    &&& forall|i: int, j: int| 0 <= i < j < z.len() ==> (#[trigger] z[i]).name != (#[trigger] z[j]).name
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < z.len() && (#[trigger] z[i]).name == k
}
// what opening an archive gives: every file entry, the last one of a name winning
pub open spec fn opened(z: Seq<Entry>, n: int) -> Parts decreases n {
    if n <= 0 { Map::<Seq<char>, Seq<u8>>::empty() } else if isdir(z[n - 1].name) { opened(z, n - 1) } else { opened(z, n - 1).insert(z[n - 1].name, z[n - 1].bytes) }
}
pub proof fn lemma_opened(z: Seq<Entry>, m: Parts, n: int)
    requires holds(z, m), 0 <= n <= z.len(), forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> !isdir(k)
    ensures forall|k: Seq<char>| #[trigger] opened(z, n).dom().contains(k) <==> (exists|i: int| 0 <= i < n && (#[trigger] z[i]).name == k), forall|i: int| 0 <= i < n ==> opened(z, n)[(#[trigger] z[i]).name] == z[i].bytes
    decreases n
{
    if n > 0 {
        lemma_opened(z, m, n - 1);
        assert(m.dom().contains(z[n - 1].name));
        assert forall|k: Seq<char>| #[trigger] opened(z, n).dom().contains(k) <==> (exists|i: int| 0 <= i < n && (#[trigger] z[i]).name == k) by {
            if exists|i: int| 0 <= i < n && (#[trigger] z[i]).name == k { let i = choose|i: int| 0 <= i < n && (#[trigger] z[i]).name == k; if i < n - 1 { assert(opened(z, n - 1).dom().contains(k)); } }
            if opened(z, n).dom().contains(k) && k != z[n - 1].name { assert(opened(z, n - 1).dom().contains(k)); }
        }
    }
}
// saving and opening again gives the same package
pub proof fn theorem_round_trip(z: Seq<Entry>, m: Parts)
    requires holds(z, m), forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> !isdir(k)
    ensures opened(z, z.len() as int) == m
{
    lemma_opened(z, m, z.len() as int);
    let o = opened(z, z.len() as int);
    assert forall|k: Seq<char>| #[trigger] o.dom().contains(k) <==> m.dom().contains(k) by {
        if o.dom().contains(k) { let i = choose|i: int| 0 <= i < z.len() && (#[trigger] z[i]).name == k; assert(m.dom().contains(z[i].name)); }
    }
    assert forall|k: Seq<char>| m.dom().contains(k) implies o[k] == m[k] by { let i = choose|i: int| 0 <= i < z.len() && (#[trigger] z[i]).name == k; }
    assert(o =~= m);
}
//@type opc/package.rs|Package retype parts=VxParts
//@fn opc/package.rs|Package::new
//@ sub: HashMap :: new ( ) =>> VxParts :: new ( )
//@ ensures: vx_ret.parts@ == Map::<Seq<char>, Seq<u8>>::empty()
//@end
//@fn opc/package.rs|Package::open_reader
//@ opt: keep_is_dir
//@ header: (reader: VxReader) -> (vx_ret: Result<Package, VxError>)
//@ sub: HashMap :: new ( ) =>> VxParts :: new ( )
//@ sub: zip :: ZipArchive :: new =>> VxArchive :: new
//@ ensures: vx_ret is Ok ==> vx_ret->Ok_0.parts@ == opened(reader.entries(), reader.entries().len() as int)
//@ loop 0 inv: archive@ == reader.entries(), vx_e0 == archive@.len(), parts@ == opened(archive@, vx_i0 as int)
//@end
//@fn opc/package.rs|Package::save_writer
//@ header: (&self, writer: VxWriter) -> (vx_ret: Result<(), VxError>)
//@ sub: zip :: ZipWriter :: new =>> VxZip :: new
//@ sub: zip :: write :: FileOptions :: default =>> VxOptions :: default
//@ sub: std :: io :: Write :: write_all ( & mut archive , content ) =>> archive . write_all ( content )
//@ sub: & self . parts =>> & self . parts . entries ( )
//@ sub: archive . finish ( ) =>> archive . finish ( & self . parts )
//@ loop 0 inv: lists(vx_s0@, self.parts@), archive@.len() == vx_i0, forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] archive@[i]).name == vx_s0@[i].0@ && archive@[i].bytes == vx_s0@[i].1@
//@ loop 0 post: assert forall|k: Seq<char>| #[trigger] self.parts@.dom().contains(k) implies exists|i: int| 0 <= i < archive@.len() && (#[trigger] archive@[i]).name == k by { let i = choose|i: int| 0 <= i < vx_s0@.len() && (#[trigger] vx_s0@[i]).0@ == k; assert(archive@[i].name == k); }
//@end
//@fn opc/package.rs|Package::get_part
//@ opt: optmatch
//@ ensures: vx_ret is Some <==> self.parts@.dom().contains(path@), vx_ret is Some ==> vx_ret->Some_0@ == self.parts@[path@]
//@end
//@fn opc/package.rs|Package::add_part
//@ ensures: final(self).parts@ == old(self).parts@.insert(path@, content@)
//@end
//@fn opc/package.rs|Package::remove_part
//@ ensures: final(self).parts@ == old(self).parts@.remove(path@), vx_ret is Some <==> old(self).parts@.dom().contains(path@), vx_ret is Some ==> vx_ret->Some_0@ == old(self).parts@[path@]
//@end
//@fn opc/package.rs|Package::has_part
//@ ensures: vx_ret == self.parts@.dom().contains(path@)
//@end
//@fn opc/package.rs|Package::part_paths
//@ sub: self . parts . keys ( ) . map ( | s | s . as_str ( ) ) . collect ( ) =>> self . parts . names ( )
//@ ensures: forall|k: Seq<char>| #[trigger] self.parts@.dom().contains(k) <==> exists|i: int| 0 <= i < vx_ret@.len() && (#[trigger] vx_ret@[i])@ == k, forall|i: int, j: int| 0 <= i < j < vx_ret@.len() ==> (#[trigger] vx_ret@[i])@ != (#[trigger] vx_ret@[j])@
//@end
//@fn opc/package.rs|Package::part_count
//@ ensures: self.parts@.dom().finite(), vx_ret == self.parts@.dom().len()
//@end
//%extras
} // verus!
fn main() {}
