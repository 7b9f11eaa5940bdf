// ---------------------------------------------------------------------------------------------
// Trusted base of every unit: contracts ASSUMED for std functions that vstd does not specify, and
// the view of formatting. Everything marked external_body / uninterp here is an assumption.
// ---------------------------------------------------------------------------------------------
use vstd::prelude::*;
verus! {

// decimal digits of a natural number (what Display prints for unsigned integers)
// always true: names the element type of a vector where the verifier cannot infer it in time
pub open spec fn tyv<T>(v: Vec<T>) -> bool { true }
pub open spec fn digit(n: nat) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' }
    else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' }
}
pub open spec fn dec(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) }
}
pub open spec fn decint(n: int) -> Seq<char> {
    if n >= 0 { dec(n as nat) } else { seq!['-'] + dec((-n) as nat) }
}
pub proof fn lemma_dec_nonempty(n: nat) ensures dec(n).len() >= 1 decreases n {
    if n >= 10 { lemma_dec_nonempty(n / 10); }
}
pub proof fn lemma_digit_inj(a: nat, b: nat) requires a < 10, b < 10, digit(a) == digit(b) ensures a == b {}
pub proof fn lemma_dec_injective(a: nat, b: nat) requires dec(a) == dec(b) ensures a == b decreases a {
    if a < 10 && b < 10 {
        assert(dec(a)[0] == digit(a) && dec(b)[0] == digit(b));
        lemma_digit_inj(a, b);
    } else if a < 10 {
        lemma_dec_nonempty(b / 10);
        assert(dec(b).len() >= 2);
        assert(dec(a).len() == 1);
    } else if b < 10 {
        lemma_dec_nonempty(a / 10);
        assert(dec(a).len() >= 2);
        assert(dec(b).len() == 1);
    } else {
        assert(dec(a).drop_last() =~= dec(a / 10));
        assert(dec(b).drop_last() =~= dec(b / 10));
        lemma_dec_injective(a / 10, b / 10);
        assert(dec(a).last() == digit(a % 10));
        assert(dec(b).last() == digit(b % 10));
        lemma_digit_inj(a % 10, b % 10);
    }
}
pub open spec fn is_dig(c: char) -> bool { '0' <= c && c <= '9' }
pub proof fn lemma_dec_digits(n: nat) ensures forall|i: int| 0 <= i < dec(n).len() ==> is_dig(#[trigger] dec(n)[i]) decreases n {
    if n >= 10 {
        lemma_dec_digits(n / 10);
        assert forall|i: int| 0 <= i < dec(n).len() implies is_dig(#[trigger] dec(n)[i]) by {
            if i < dec(n / 10).len() { assert(dec(n)[i] == dec(n / 10)[i]); }
        }
    }
}

// Display
pub trait VxFmt { spec fn disp(&self) -> Seq<char>; fn vx_fmt(&self, s: &mut String) ensures final(s)@ == old(s)@ + self.disp(); }
impl VxFmt for str { open spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_fmt(&self, s: &mut String) { s.push_str(self) } }
impl VxFmt for String { open spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_fmt(&self, s: &mut String) { s.push_str(self) } }
impl VxFmt for char { open spec fn disp(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn vx_fmt(&self, s: &mut String) { s.push(*self) } }
impl VxFmt for u8 { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vx_fmt(&self, s: &mut String) { s.push_str(&self.to_string()) } }
impl VxFmt for u16 { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vx_fmt(&self, s: &mut String) { s.push_str(&self.to_string()) } }
impl VxFmt for u32 { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vx_fmt(&self, s: &mut String) { s.push_str(&self.to_string()) } }
impl VxFmt for u64 { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vx_fmt(&self, s: &mut String) { s.push_str(&self.to_string()) } }
impl VxFmt for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vx_fmt(&self, s: &mut String) { s.push_str(&self.to_string()) } }
impl VxFmt for i32 { open spec fn disp(&self) -> Seq<char> { decint(*self as int) } #[verifier::external_body] fn vx_fmt(&self, s: &mut String) { s.push_str(&self.to_string()) } }
impl VxFmt for i64 { open spec fn disp(&self) -> Seq<char> { decint(*self as int) } #[verifier::external_body] fn vx_fmt(&self, s: &mut String) { s.push_str(&self.to_string()) } }
// marker of the vacuity run (check.py): nothing is known about it
pub uninterp spec fn vx_vac(k: int) -> bool;
pub uninterp spec fn f64disp(x: f64) -> Seq<char>;
impl VxFmt for f64 { open spec fn disp(&self) -> Seq<char> { f64disp(*self) } #[verifier::external_body] fn vx_fmt(&self, s: &mut String) { s.push_str(&self.to_string()) } }
pub uninterp spec fn f32disp(x: f32) -> Seq<char>;
impl VxFmt for f32 { open spec fn disp(&self) -> Seq<char> { f32disp(*self) } #[verifier::external_body] fn vx_fmt(&self, s: &mut String) { s.push_str(&self.to_string()) } }
impl<T: VxFmt + ?Sized> VxFmt for &T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } #[verifier::external_body] fn vx_fmt(&self, s: &mut String) { (**self).vx_fmt(s) } }

pub trait VxOrd: Sized { spec fn le(self, o: Self) -> bool; fn vx_max(self, o: Self) -> (r: Self) ensures r == (if self.le(o) { o } else { self }); fn vx_min(self, o: Self) -> (r: Self) ensures r == (if self.le(o) { self } else { o }); }
impl VxOrd for usize { open spec fn le(self, o: Self) -> bool { self <= o } fn vx_max(self, o: Self) -> (r: Self) { if self <= o { o } else { self } } fn vx_min(self, o: Self) -> (r: Self) { if self <= o { self } else { o } } }
impl VxOrd for u32 { open spec fn le(self, o: Self) -> bool { self <= o } fn vx_max(self, o: Self) -> (r: Self) { if self <= o { o } else { self } } fn vx_min(self, o: Self) -> (r: Self) { if self <= o { self } else { o } } }
impl VxOrd for i32 { open spec fn le(self, o: Self) -> bool { self <= o } fn vx_max(self, o: Self) -> (r: Self) { if self <= o { o } else { self } } fn vx_min(self, o: Self) -> (r: Self) { if self <= o { self } else { o } } }
impl VxOrd for i64 { open spec fn le(self, o: Self) -> bool { self <= o } fn vx_max(self, o: Self) -> (r: Self) { if self <= o { o } else { self } } fn vx_min(self, o: Self) -> (r: Self) { if self <= o { self } else { o } } }
pub struct VxFmtErr { pub c: u8 }
// writing to a String never fails
pub fn vx_fmt_ok() -> (r: Result<(), VxFmtErr>) ensures r is Ok { Ok(()) }
#[verifier::external_body] pub fn vx_unreachable<T>() -> T requires false { panic!() }

// the element a loop over an owned vector takes at its turn (each index is used once)
#[verifier::external_body] pub fn vx_move_out<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }

// rearrangement of a vector by keys/marks computed for each element
pub open spec fn masked<T>(s: Seq<T>, keep: Seq<bool>, n: int) -> Seq<T> decreases n {
    if n <= 0 { Seq::<T>::empty() } else if keep[n - 1] { masked(s, keep, n - 1).push(s[n - 1]) } else { masked(s, keep, n - 1) }
}
#[verifier::external_body]
pub fn vx_retain_masks<T>(v: &mut Vec<T>, keep: &Vec<bool>)
    requires keep@.len() == old(v)@.len()
    ensures final(v)@ == masked(old(v)@, keep@, keep@.len() as int)
{ let mut k = 0; v.retain(|_| { k += 1; keep[k - 1] }); }
pub open spec fn is_perm(p: Seq<int>, n: int) -> bool {
    &&& p.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j]
    &&& forall|k: int| #![trigger p.contains(k)] 0 <= k < n ==> p.contains(k)
}
// stable sort: the places p[i] the elements came from, keys non-decreasing, ties in the old order
#[verifier::external_body]
pub fn vx_sort_by_keys<T>(v: &mut Vec<T>, keys: &Vec<usize>)
    requires keys@.len() == old(v)@.len()
    ensures exists|p: Seq<int>| #[trigger] is_perm(p, old(v)@.len() as int) && final(v)@.len() == old(v)@.len()
        && (forall|i: int| 0 <= i < p.len() ==> #[trigger] final(v)@[i] == old(v)@[p[i]])
        && (forall|i: int, j: int| 0 <= i < j < p.len() ==> keys@[#[trigger] p[i]] <= keys@[#[trigger] p[j]])
{ unimplemented!() }

// strings
pub open spec fn has_prefix(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn has_suffix(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) == p }
pub open spec fn occurs_at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub open spec fn has_sub(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| occurs_at(s, p, i) }
pub open spec fn has_char(s: Seq<char>, c: char) -> bool { exists|i: int| 0 <= i < s.len() && s[i] == c }
pub open spec fn rep1(s: Seq<char>, c: char, by: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::<char>::empty() } else { (if s[0] == c { by } else { seq![s[0]] }) + rep1(s.skip(1), c, by) }
}
// every ASCII character of s shows up as that byte in its UTF-8 encoding, and conversely; the others as bytes from 128 on
pub open spec fn ascii_bytes(s: Seq<char>, b: Seq<u8>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() && (#[trigger] s[i] as int) < 128 ==> exists|j: int| 0 <= j < b.len() && #[trigger] b[j] as int == s[i] as int
    &&& forall|j: int| 0 <= j < b.len() && (#[trigger] b[j] as int) < 128 ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] as int == b[j] as int
    &&& (exists|i: int| 0 <= i < s.len() && (#[trigger] s[i] as int) >= 128) <==> (exists|j: int| 0 <= j < b.len() && #[trigger] b[j] as int >= 128)
}
pub trait VxStr {
    fn vx_bytes(&self) -> (r: Vec<u8>) ensures ascii_bytes(self.sv(), r@);
    spec fn sv(&self) -> Seq<char>;
    fn vx_eq(&self, o: &str) -> (r: bool) ensures r == (self.sv() == o@);
    fn vx_starts_with(&self, p: &str) -> (r: bool) ensures r == has_prefix(self.sv(), p@);
    fn vx_ends_with(&self, p: &str) -> (r: bool) ensures r == has_suffix(self.sv(), p@);
    fn vx_starts_with_c(&self, c: char) -> (r: bool) ensures r == (self.sv().len() > 0 && self.sv()[0] == c);
    fn vx_ends_with_c(&self, c: char) -> (r: bool) ensures r == (self.sv().len() > 0 && self.sv().last() == c);
    fn vx_contains(&self, p: &str) -> (r: bool) ensures r == has_sub(self.sv(), p@);
    fn vx_contains_c(&self, c: char) -> (r: bool) ensures r == has_char(self.sv(), c);
    fn vx_chars(&self) -> (r: Vec<char>) ensures r@ == self.sv();
    // replace of a single character pattern (a `char`, or a one-character literal)
    fn vx_replace_c(&self, c: char, by: &str) -> (r: String) ensures r@ == rep1(self.sv(), c, by@);
    fn vx_replace(&self, p: &str, by: &str) -> (r: String) ensures p@.len() == 1 ==> r@ == rep1(self.sv(), p@[0], by@);
}
impl VxStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_bytes(&self) -> (r: Vec<u8>) { self.bytes().collect() }
    #[verifier::external_body] fn vx_eq(&self, o: &str) -> (r: bool) { self == o }
    #[verifier::external_body] fn vx_starts_with(&self, p: &str) -> (r: bool) { self.starts_with(p) }
    #[verifier::external_body] fn vx_ends_with(&self, p: &str) -> (r: bool) { self.ends_with(p) }
    #[verifier::external_body] fn vx_starts_with_c(&self, c: char) -> (r: bool) { self.starts_with(c) }
    #[verifier::external_body] fn vx_ends_with_c(&self, c: char) -> (r: bool) { self.ends_with(c) }
    #[verifier::external_body] fn vx_contains(&self, p: &str) -> (r: bool) { self.contains(p) }
    #[verifier::external_body] fn vx_contains_c(&self, c: char) -> (r: bool) { self.contains(c) }
    #[verifier::external_body] fn vx_chars(&self) -> (r: Vec<char>) { self.chars().collect() }
    #[verifier::external_body] fn vx_replace_c(&self, c: char, by: &str) -> (r: String) { self.replace(c, by) }
    #[verifier::external_body] fn vx_replace(&self, p: &str, by: &str) -> (r: String) { self.replace(p, by) }
}
pub trait VxBytes {
    spec fn bv(&self) -> Seq<u8>;
    fn vx_eq(&self, o: &[u8]) -> (r: bool) ensures r == (self.bv() =~= o@);
    fn vx_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.bv();
}
impl VxBytes for [u8] {
    open spec fn bv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_eq(&self, o: &[u8]) -> (r: bool) { self == o }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() }
}
} // verus!
