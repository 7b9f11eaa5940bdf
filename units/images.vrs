//@include prelude.rs
//@opt strslice
//@lits
//@opt bytelit
//@opt optmatch
verus! {
// assumed contracts of std functions
#[verifier::external_body] pub fn vx_u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r as int == b@[0] as int * 16777216 + b@[1] as int * 65536 + b@[2] as int * 256 + b@[3] as int { u32::from_be_bytes(b) }
#[verifier::external_body] pub fn vx_u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r as int == le4(b@) { u32::from_le_bytes(b) }
#[verifier::external_body] pub fn vx_i32_from_le_bytes(b: [u8; 4]) -> (r: i32) ensures r as int == sgn32(le4(b@)) { i32::from_le_bytes(b) }
#[verifier::external_body] pub fn vx_u16_from_be_bytes(b: [u8; 2]) -> (r: u16) ensures r as int == b@[0] as int * 256 + b@[1] as int { u16::from_be_bytes(b) }
#[verifier::external_body] pub fn vx_u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r as int == b@[1] as int * 256 + b@[0] as int { u16::from_le_bytes(b) }
pub assume_specification[ i32::unsigned_abs ](x: i32) -> (r: u32) ensures r as int == abs(x as int);
pub open spec fn le4(b: Seq<u8>) -> int { b[3] as int * 16777216 + b[2] as int * 65536 + b[1] as int * 256 + b[0] as int }
pub open spec fn sgn32(n: int) -> int { if n >= 0x80000000 { n - 0x100000000 } else { n } }
pub open spec fn abs(n: int) -> int { if n < 0 { -n } else { n } }
// std::io::Error: only that there was one
pub enum VxIoKind { InvalidData }
pub struct VxIoErr { pub c: u8 }
impl VxIoErr { pub fn new(k: VxIoKind, m: &str) -> VxIoErr { VxIoErr { c: 0 } } }
pub trait VxSlices {
    spec fn bs(&self) -> Seq<u8>;
    fn vx_str_range(&self, a: usize, b: usize) -> (r: &[u8]) requires a <= b <= self.bs().len() ensures r@ == self.bs().subrange(a as int, b as int);
    fn vx_starts_with(&self, p: &[u8]) -> (r: bool) ensures r == begins(self.bs(), p@);
}
impl VxSlices for [u8] {
    open spec fn bs(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_str_range(&self, a: usize, b: usize) -> (r: &[u8]) { &self[a..b] }
    #[verifier::external_body] fn vx_starts_with(&self, p: &[u8]) -> (r: bool) { self.starts_with(p) }
}
impl VxSlices for Vec<u8> {
    open spec fn bs(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_str_range(&self, a: usize, b: usize) -> (r: &[u8]) { &self[a..b] }
    #[verifier::external_body] fn vx_starts_with(&self, p: &[u8]) -> (r: bool) { self.starts_with(p) }
}
pub open spec fn begins(s: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= s.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] s[i] == p[i] }

// ---- base64 -----------------------------------------------------------------------------------
// the text without surrounding white space, line ends and spaces, as UTF-8
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub open spec fn without(s: Seq<char>, cs: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else { let r = without(s.drop_last(), cs); if cs.contains(s.last()) { r } else { r.push(s.last()) } } }
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub struct VxBytesIter { pub v: Vec<u8> }
impl VxBytesIter { pub fn collect(self) -> (r: Vec<u8>) ensures r@ == self.v@ { self.v } }
pub trait VxB64 {
    spec fn b6(&self) -> Seq<char>;
    fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.b6());
    fn vx_replace_cs(&self, cs: &[char], by: &str) -> (r: String) ensures by@.len() == 0 ==> r@ == without(self.b6(), cs@);
    fn vx_utf8(&self) -> (r: VxBytesIter) ensures r.v@ == utf8(self.b6()), r.v@.len() < usize::MAX - 8;
}
impl VxB64 for str {
    open spec fn b6(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { self.trim() }
    #[verifier::external_body] fn vx_replace_cs(&self, cs: &[char], by: &str) -> (r: String) { self.replace(cs, by) }
    // a string is never longer than isize::MAX bytes
    #[verifier::external_body] fn vx_utf8(&self) -> (r: VxBytesIter) { VxBytesIter { v: self.bytes().collect() } }
}
pub open spec fn payload(s: Seq<char>) -> Seq<u8> { utf8(without(trimmed(s), seq!['\n', '\r', ' '])) }
// RFC 4648 alphabet
pub open spec fn b64v(b: u8) -> int {
    if 65 <= b <= 90 { b - 65 } else if 97 <= b <= 122 { b - 97 + 26 } else if 48 <= b <= 57 { b - 48 + 52 } else if b == 43 { 62 } else if b == 47 { 63 } else { -1 }
}
pub open spec fn b64c(v: int) -> u8 { if v < 26 { (65 + v) as u8 } else if v < 52 { (97 + v - 26) as u8 } else if v < 62 { (48 + v - 52) as u8 } else if v == 62 { 43 } else { 47 } }
// n digits, then nothing but padding, which (if there) at most fills the last group of four
pub open spec fn b64_text(s: Seq<u8>, n: int) -> bool {
    &&& 0 <= n <= s.len() && n % 4 != 1 && s.len() <= (n + 3) / 4 * 4
    &&& forall|i: int| 0 <= i < n ==> b64v(#[trigger] s[i]) >= 0
    &&& forall|i: int| n <= i < s.len() ==> #[trigger] s[i] == 61
}
pub open spec fn v_at(s: Seq<u8>, n: int, i: int) -> int { if i < n { b64v(s[i]) } else { 0 } }
pub open spec fn b64_byte(s: Seq<u8>, n: int, k: int) -> int {
    let g = k / 3 * 4;
    if k % 3 == 0 { v_at(s, n, g) * 4 + v_at(s, n, g + 1) / 16 } else if k % 3 == 1 { v_at(s, n, g + 1) % 16 * 16 + v_at(s, n, g + 2) / 4 } else { v_at(s, n, g + 2) % 4 * 64 + v_at(s, n, g + 3) }
}
pub open spec fn b64_bytes(s: Seq<u8>, n: int, o: Seq<u8>) -> bool { o.len() == n * 3 / 4 && forall|k: int| 0 <= k < o.len() ==> #[trigger] o[k] as int == b64_byte(s, n, k) }
// the base64 notation of data (RFC 4648 section 4): digit i, and how many digits there are
pub open spec fn at0(d: Seq<u8>, i: int) -> int { if i < d.len() { d[i] as int } else { 0 } }
pub open spec fn b64_digit(d: Seq<u8>, i: int) -> int {
    let g = i / 4 * 3;
    if i % 4 == 0 { at0(d, g) / 4 } else if i % 4 == 1 { at0(d, g) % 4 * 16 + at0(d, g + 1) / 16 } else if i % 4 == 2 { at0(d, g + 1) % 16 * 4 + at0(d, g + 2) / 64 } else { at0(d, g + 2) % 64 }
}
pub open spec fn b64_of(d: Seq<u8>, s: Seq<u8>) -> bool {
    let n = (d.len() * 4 + 2) / 3;
    &&& s.len() == n || s.len() == (n + 3) / 4 * 4
    &&& forall|i: int| 0 <= i < n ==> #[trigger] s[i] == b64c(b64_digit(d, i))
    &&& forall|i: int| n <= i < s.len() ==> #[trigger] s[i] == 61
}
// what the notation of data is read as: the data
pub proof fn theorem_b64(d: Seq<u8>, s: Seq<u8>, n: int, o: Seq<u8>)
    requires b64_of(d, s), b64_text(s, n), b64_bytes(s, n, o)
    ensures o == d
{
    let m = (d.len() * 4 + 2) / 3;
    assert forall|i: int| 0 <= i < m implies b64v(#[trigger] s[i]) == b64_digit(d, i) by { lemma_b64vc(b64_digit(d, i)); }
    if n < m { assert(s[n] == 61); assert(b64v(s[n]) >= 0); }
    if n > m { assert(s[m as int] == 61); assert(b64v(s[m as int]) >= 0); }
    assert forall|k: int| 0 <= k < d.len() implies #[trigger] o[k] == d[k] by {
        let q = k / 3; let r = k % 3;
        assert(k == 3 * q + r);
        assert forall|t: int| 0 <= t implies #[trigger] v_at(s, n, t) == (if t < n { b64_digit(d, t) } else { 0 }) by { }
        assert((4 * q) / 4 == q && (4 * q + 1) / 4 == q && (4 * q + 2) / 4 == q && (4 * q + 3) / 4 == q);
        assert((4 * q) % 4 == 0 && (4 * q + 1) % 4 == 1 && (4 * q + 2) % 4 == 2 && (4 * q + 3) % 4 == 3);
        assert(o[k] as int == b64_byte(s, n, k));
    }
    assert(o =~= d);
}
// the notation of any data is a text that is accepted
pub proof fn theorem_b64_text(d: Seq<u8>, s: Seq<u8>) requires b64_of(d, s) ensures b64_text(s, ((d.len() * 4 + 2) / 3) as int)
{
    let m = (d.len() * 4 + 2) / 3;
    assert forall|i: int| 0 <= i < m implies b64v(#[trigger] s[i]) >= 0 by { lemma_b64vc(b64_digit(d, i)); }
}
pub proof fn lemma_b64vc(v: int) requires 0 <= v < 64 ensures b64v(b64c(v)) == v {}
pub proof fn lemma_bits(a: u8, b: u8) requires a < 64, b < 64 ensures
    ((a << 2) | (b >> 4)) as int == a as int * 4 + b as int / 16,
    ((a << 4) | (b >> 2)) as int == a as int % 16 * 16 + b as int / 4,
    ((a << 6) | b) as int == a as int % 4 * 64 + b as int
{
    assert(((a << 2) | (b >> 4)) == a * 4 + b / 16) by (bit_vector) requires a < 64, b < 64;
    assert(((a << 4) | (b >> 2)) == (a % 16) * 16 + b / 4) by (bit_vector) requires a < 64, b < 64;
    assert(((a << 6) | b) == (a % 4) * 64 + b) by (bit_vector) requires a < 64, b < 64;
}
pub open spec fn digits(p: Seq<u8>, n: int) -> bool { 0 <= n <= p.len() && forall|t: int| 0 <= t < n ==> b64v(#[trigger] p[t]) >= 0 }
pub open spec fn decoded(p: Seq<u8>, o: Seq<u8>) -> bool { exists|n: int| #[trigger] b64_text(p, n) && b64_bytes(p, n, o) }
// the group of four at i has q digits, followed by padding or the end of the text
pub open spec fn group(p: Seq<u8>, i: int, q: int, j: int) -> bool {
    &&& 0 <= q <= j && (q > 0 ==> i + q <= p.len())
    &&& forall|t: int| i <= t < i + q ==> b64v(#[trigger] p[t]) >= 0
    &&& forall|t: int| i + q <= t < i + j && t < p.len() ==> #[trigger] p[t] == 61
}
// the number of digits is determined by the text
pub proof fn lemma_digits(p: Seq<u8>, i: int, q: int, j: int)
    requires 0 <= i < p.len(), digits(p, i), group(p, i, q, j), q < j
    ensures forall|n: int| #[trigger] b64_text(p, n) ==> n == i + q
{
    assert forall|n: int| #[trigger] b64_text(p, n) implies n == i + q by {
        if n < i { assert(p[n] == 61); assert(b64v(p[n]) >= 0); }
        else if n < i + q { assert(p[n] == 61); assert(b64v(p[n]) >= 0); }
        else if n > i + q { assert(p[i + q] == 61); assert(b64v(p[i + q]) >= 0); }
    }
}
pub proof fn lemma_one(p: Seq<u8>, n: int, m: int) requires b64_text(p, n), b64_text(p, m) ensures n == m {
    if n < m { assert(p[n] == 61); assert(b64v(p[n]) >= 0); }
    if m < n { assert(p[m] == 61); assert(b64v(p[m]) >= 0); }
}
// the group is the last one: the text is complete
pub proof fn lemma_last(p: Seq<u8>, i: int, q: int, o: Seq<u8>, b: Seq<u8>, x: Seq<u8>)
    requires i % 4 == 0, 0 <= i < p.len(), digits(p, i), group(p, i, q, 4), 2 <= q <= 4, i + 4 >= p.len(), b64_bytes(p, i, o), buf4(p, i, q, b, 4), x == o + grp_bytes(b, q),
    ensures decoded(p, x)
{
    let n = i + q;
    assert(b64_text(p, n)) by { assert forall|t: int| 0 <= t < n implies b64v(#[trigger] p[t]) >= 0 by { if t < i {} else {} } }
    lemma_grp(p, i, q, o, b, x);
}
pub open spec fn buf4(p: Seq<u8>, i: int, q: int, b: Seq<u8>, j: int) -> bool { b.len() == 4 && forall|t: int| 0 <= t < j ==> (#[trigger] b[t]) as int == (if t < q { b64v(p[i + t]) } else { 0 }) }
pub open spec fn grp_bytes(b: Seq<u8>, q: int) -> Seq<u8> {
    let x = seq![((b[0] << 2) | (b[1] >> 4))]; let y = x.push(((b[1] << 4) | (b[2] >> 2))); let z = y.push(((b[2] << 6) | b[3]));
    if q == 2 { x } else if q == 3 { y } else { z }
}
pub proof fn lemma_grp(p: Seq<u8>, i: int, q: int, o: Seq<u8>, b: Seq<u8>, x: Seq<u8>)
    requires i % 4 == 0, 0 <= i < p.len(), digits(p, i), 2 <= q <= 4, i + q <= p.len(), group(p, i, q, 4), b64_bytes(p, i, o), buf4(p, i, q, b, 4), x == o + grp_bytes(b, q)
    ensures b64_bytes(p, i + q, x)
{
    let n = i + q;
    assert(forall|t: int| 0 <= t < 4 ==> (#[trigger] b[t]) < 64);
    lemma_bits(b[0], b[1]); lemma_bits(b[1], b[2]); lemma_bits(b[2], b[3]);
    assert(o.len() == i / 4 * 3);
    let w = o.len() as int;
    assert(b[0] as int == v_at(p, n, i) && b[1] as int == v_at(p, n, i + 1) && b[2] as int == v_at(p, n, i + 2) && b[3] as int == v_at(p, n, i + 3));
    assert forall|k: int| 0 <= k < x.len() implies #[trigger] x[k] as int == b64_byte(p, n, k) by {
        if k < w {
            assert(x[k] == o[k]);
            let g = k / 3 * 4;
            assert(0 <= g && g + 4 <= i);
            assert(b64_byte(p, n, k) == b64_byte(p, i, k));
        } else {
            assert(x[k] == grp_bytes(b, q)[k - w]);
            assert(k / 3 * 4 == i);
        }
    }
}
// one entry of the table per character
pub proof fn lemma_table(t: Seq<i8>) requires t =~= b64_table() ensures forall|c: int| 0 <= c < 128 ==> (#[trigger] t[c]) as int == b64v(c as u8)
{
    assert forall|c: int| 0 <= c < 128 implies (#[trigger] t[c]) as int == b64v(c as u8) by {
        if c == 0 {} else if c == 1 {} else if c == 2 {} else if c == 3 {} else if c == 4 {} else if c == 5 {} else if c == 6 {} else if c == 7 {} else if c == 8 {} else if c == 9 {} else if c == 10 {} else if c == 11 {} else if c == 12 {} else if c == 13 {} else if c == 14 {} else if c == 15 {} else if c == 16 {} else if c == 17 {} else if c == 18 {} else if c == 19 {} else if c == 20 {} else if c == 21 {} else if c == 22 {} else if c == 23 {} else if c == 24 {} else if c == 25 {} else if c == 26 {} else if c == 27 {} else if c == 28 {} else if c == 29 {} else if c == 30 {} else if c == 31 {} else if c == 32 {} else if c == 33 {} else if c == 34 {} else if c == 35 {} else if c == 36 {} else if c == 37 {} else if c == 38 {} else if c == 39 {} else if c == 40 {} else if c == 41 {} else if c == 42 {} else if c == 43 {} else if c == 44 {} else if c == 45 {} else if c == 46 {} else if c == 47 {} else if c == 48 {} else if c == 49 {} else if c == 50 {} else if c == 51 {} else if c == 52 {} else if c == 53 {} else if c == 54 {} else if c == 55 {} else if c == 56 {} else if c == 57 {} else if c == 58 {} else if c == 59 {} else if c == 60 {} else if c == 61 {} else if c == 62 {} else if c == 63 {} else if c == 64 {} else if c == 65 {} else if c == 66 {} else if c == 67 {} else if c == 68 {} else if c == 69 {} else if c == 70 {} else if c == 71 {} else if c == 72 {} else if c == 73 {} else if c == 74 {} else if c == 75 {} else if c == 76 {} else if c == 77 {} else if c == 78 {} else if c == 79 {} else if c == 80 {} else if c == 81 {} else if c == 82 {} else if c == 83 {} else if c == 84 {} else if c == 85 {} else if c == 86 {} else if c == 87 {} else if c == 88 {} else if c == 89 {} else if c == 90 {} else if c == 91 {} else if c == 92 {} else if c == 93 {} else if c == 94 {} else if c == 95 {} else if c == 96 {} else if c == 97 {} else if c == 98 {} else if c == 99 {} else if c == 100 {} else if c == 101 {} else if c == 102 {} else if c == 103 {} else if c == 104 {} else if c == 105 {} else if c == 106 {} else if c == 107 {} else if c == 108 {} else if c == 109 {} else if c == 110 {} else if c == 111 {} else if c == 112 {} else if c == 113 {} else if c == 114 {} else if c == 115 {} else if c == 116 {} else if c == 117 {} else if c == 118 {} else if c == 119 {} else if c == 120 {} else if c == 121 {} else if c == 122 {} else if c == 123 {} else if c == 124 {} else if c == 125 {} else if c == 126 {} else if c == 127 {}
    }
}
pub open spec fn b64_table() -> Seq<i8> { seq![-1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, 62i8, -1i8, -1i8, -1i8, 63i8, 52i8, 53i8, 54i8, 55i8, 56i8, 57i8, 58i8, 59i8, 60i8, 61i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, 0i8, 1i8, 2i8, 3i8, 4i8, 5i8, 6i8, 7i8, 8i8, 9i8, 10i8, 11i8, 12i8, 13i8, 14i8, 15i8, 16i8, 17i8, 18i8, 19i8, 20i8, 21i8, 22i8, 23i8, 24i8, 25i8, -1i8, -1i8, -1i8, -1i8, -1i8, -1i8, 26i8, 27i8, 28i8, 29i8, 30i8, 31i8, 32i8, 33i8, 34i8, 35i8, 36i8, 37i8, 38i8, 39i8, 40i8, 41i8, 42i8, 43i8, 44i8, 45i8, 46i8, 47i8, 48i8, 49i8, 50i8, 51i8, -1i8, -1i8, -1i8, -1i8, -1i8] }
//@fn base64_decode
//@ opt: streq
//@ sig: (vx_ret: Result<Vec<u8>, VxIoErr>)
//@ sub: std :: io :: Error =>> VxIoErr
//@ sub: std :: io :: ErrorKind =>> VxIoKind
//@ sub: input . bytes () . collect () =>> input . vx_utf8 () . collect ()
//@ ensures:
//@   vx_ret is Ok <==> (exists|n: int| #[trigger] b64_text(payload(input@), n)),
//@   vx_ret is Ok ==> (forall|n: int| #[trigger] b64_text(payload(input@), n) ==> b64_bytes(payload(input@), n, vx_ret->Ok_0@))
//@ loop 0 pre: let ghost p = bytes@; proof { assert(p == payload(vx_in)) by { assert(['\n', '\r', ' ']@ =~= seq!['\n', '\r', ' ']); } lemma_table(DECODE_TABLE@); if p.len() == 0 { assert(b64_text(p, 0)); assert(decoded(p, output@)); } assert(digits(p, 0)); }
//@ loop 0 inv: bytes@ == p, p == payload(vx_in), p.len() < usize::MAX - 8, i < p.len() ==> i % 4 == 0 && digits(p, i as int) && b64_bytes(p, i as int, output@), i >= p.len() ==> decoded(p, output@), i <= p.len() + 4,
//@   forall|c: int| 0 <= c < 128 ==> (#[trigger] DECODE_TABLE@[c]) as int == b64v(c as u8)
//@ loop 0 dec: p.len() + 4 - i
//@ loop 0 begin: let ghost vx_o = output@; let ghost vx_i = i as int;
//@ loop 1 inv: bytes@ == p, p == payload(vx_in), p.len() < usize::MAX - 8, i < p.len(), i % 4 == 0, vx_i == i, digits(p, i as int), vx_b1 == 0, vx_e1 == 4, 0 <= pad <= vx_i1, group(p, i as int, vx_i1 - pad, vx_i1 as int), buf4(p, i as int, vx_i1 - pad, buf@, vx_i1 as int),
//@   forall|c: int| 0 <= c < 128 ==> (#[trigger] DECODE_TABLE@[c]) as int == b64v(c as u8)
//@ loop 1 begin: proof { vx_bad(p, i as int, pad as int, vx_i1 as int); }
//@ loop 1 post: proof { if pad > 0 { lemma_digits(p, i as int, 4 - pad, 4); } else { } }
//@ loop 0 end: proof { let q = 4 - pad; assert(output@ =~= vx_o + grp_bytes(buf@, q)); lemma_grp(p, vx_i, q, vx_o, buf@, output@); if vx_i + 4 >= p.len() { lemma_last(p, vx_i, q, vx_o, buf@, output@); } else { assert(digits(p, i as int)); } }
//@ loop 0 post: proof { assert(decoded(p, output@)); assert forall|n: int| #[trigger] b64_text(p, n) implies b64_bytes(p, n, output@) by { let m = choose|m: int| #[trigger] b64_text(p, m) && b64_bytes(p, m, output@); lemma_one(p, n, m); } }
//@ begin: let ghost vx_in = input@; proof { reveal_strlit(""); }
//@ attr: #[verifier::loop_isolation(false)]
//@end
// why the group cannot be read on: what stands at i + j is neither a digit (before padding) nor padding
pub proof fn vx_bad(p: Seq<u8>, i: int, pad: int, j: int)
    requires 0 <= i < p.len(), digits(p, i), 0 <= pad <= j < 4, group(p, i, j - pad, j)
    ensures i + j < p.len() && p[i + j] != 61 && (pad > 0 || b64v(p[i + j]) < 0) ==> forall|n: int| !#[trigger] b64_text(p, n)
{
    if i + j < p.len() && p[i + j] != 61 && (pad > 0 || b64v(p[i + j]) < 0) {
        assert forall|n: int| !#[trigger] b64_text(p, n) by {
            if b64_text(p, n) {
                if pad > 0 { lemma_digits(p, i, j - pad, j); assert(n <= i + j); assert(p[i + j] == 61); }
                else if n > i + j { assert(b64v(p[i + j]) >= 0); } else { assert(p[i + j] == 61); }
            }
        }
    }
}
// ---- headers ----------------------------------------------------------------------------------
pub open spec fn be2(d: Seq<u8>, i: int) -> int { d[i] as int * 256 + d[i + 1] as int }
pub open spec fn be4(d: Seq<u8>, i: int) -> int { d[i] as int * 16777216 + d[i + 1] as int * 65536 + d[i + 2] as int * 256 + d[i + 3] as int }
pub open spec fn l2(d: Seq<u8>, i: int) -> int { d[i + 1] as int * 256 + d[i] as int }
pub open spec fn l4(d: Seq<u8>, i: int) -> int { d[i + 3] as int * 16777216 + d[i + 2] as int * 65536 + d[i + 1] as int * 256 + d[i] as int }
pub open spec fn png_sig() -> Seq<u8> { seq![0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A] }
pub open spec fn at(d: Seq<u8>, i: int, p: Seq<u8>) -> bool { 0 <= i && i + p.len() <= d.len() && forall|k: int| 0 <= k < p.len() ==> #[trigger] p[k] == d[i + k] }
pub struct Dims { pub w: int, pub h: int, pub f: Seq<char> }
pub open spec fn is_sof(m: u8) -> bool { m == 0xC0 || m == 0xC2 }
// the frame header found by following the chain of JPEG segments from i on
pub open spec fn jscan(d: Seq<u8>, i: int) -> Option<(int, int)> decreases (if d.len() > i { d.len() - i } else { 0 }) {
    if i < 0 || i + 1 >= d.len() { None }
    else if d[i] != 0xFF || d[i + 1] == 0xFF { jscan(d, i + 1) }
    else if is_sof(d[i + 1]) && i + 9 < d.len() { Some((be2(d, i + 7), be2(d, i + 5))) }
    else if d[i + 1] >= 0xC0 && d[i + 1] != 0xD9 && d[i + 1] != 0xDA && i + 3 < d.len() { jscan(d, i + 2 + be2(d, i + 2)) }
    else { jscan(d, i + 2) }
}
// b are the places of the markers of a JPEG file up to the frame header: every segment before it is skipped by its own
// length, so nothing inside a segment (a thumbnail, say) is taken for the frame header
pub open spec fn jpeg_markers(d: Seq<u8>, b: Seq<int>) -> bool {
    &&& b.len() > 0 && b[0] == 2
    &&& forall|k: int| 0 <= k < b.len() ==> 2 <= #[trigger] b[k] && b[k] + 3 < d.len() && d[b[k]] == 0xFF && d[b[k] + 1] >= 0xC0 && d[b[k] + 1] != 0xFF && d[b[k] + 1] != 0xD9 && d[b[k] + 1] != 0xDA
    &&& forall|k: int| 0 <= k < b.len() - 1 ==> !is_sof(#[trigger] d[b[k] + 1]) && b[k + 1] == b[k] + 2 + be2(d, b[k] + 2)
    &&& is_sof(d[b.last() + 1]) && b.last() + 9 < d.len()
}
pub proof fn theorem_jpeg(d: Seq<u8>, b: Seq<int>) requires jpeg_markers(d, b) ensures jscan(d, 2) == Some((be2(d, b.last() + 7), be2(d, b.last() + 5)))
{ lemma_jpeg(d, b, 0); }
pub proof fn lemma_jpeg(d: Seq<u8>, b: Seq<int>, k: int) requires jpeg_markers(d, b), 0 <= k < b.len() ensures jscan(d, b[k]) == Some((be2(d, b.last() + 7), be2(d, b.last() + 5))) decreases b.len() - k
{ if k < b.len() - 1 { lemma_jpeg(d, b, k + 1); assert(!is_sof(d[b[k] + 1])); } }
// what the header of a picture says (PNG, JPEG, GIF, BMP, WebP lossy and lossless)
pub open spec fn header(d: Seq<u8>) -> Option<Dims> {
    if d.len() < 10 { None }
    else if at(d, 0, png_sig()) && d.len() >= 24 { Some(Dims { w: be4(d, 16), h: be4(d, 20), f: S"PNG" }) }
    else if at(d, 0, seq![0xFF, 0xD8]) { match jscan(d, 2) { Some(x) => Some(Dims { w: x.0, h: x.1, f: S"JPEG" }), None => None } }
    else if at(d, 0, seq![71, 73, 70, 56]) { Some(Dims { w: l2(d, 6), h: l2(d, 8), f: S"GIF" }) }
    else if at(d, 0, seq![66, 77]) && d.len() >= 26 { Some(Dims { w: l4(d, 18), h: abs(sgn32(l4(d, 22))), f: S"BMP" }) }
    else if d.len() >= 30 && at(d, 0, seq![82, 73, 70, 70]) && at(d, 8, seq![87, 69, 66, 80]) {
        if at(d, 12, seq![86, 80, 56, 32]) { Some(Dims { w: l2(d, 26) % 16384, h: l2(d, 28) % 16384, f: S"WEBP" }) }
        else if at(d, 12, seq![86, 80, 56, 76]) { Some(Dims { w: l4(d, 21) % 16384 + 1, h: l4(d, 21) / 16384 % 16384 + 1, f: S"WEBP" }) }
        else { None }
    } else { None }
}
pub open spec fn dims_are(r: Option<(u32, u32, String)>, d: Option<Dims>) -> bool {
    match (r, d) { (None, None) => true, (Some(x), Some(y)) => x.0 as int == y.w && x.1 as int == y.h && x.2@ =~= y.f, _ => false }
}
pub proof fn lemma_starts(d: Seq<u8>, p: Seq<u8>) ensures begins(d, p) == at(d, 0, p) {
    if begins(d, p) { assert forall|k: int| 0 <= k < p.len() implies #[trigger] p[k] == d[0 + k] by { assert(d[k] == p[k]); } }
    if at(d, 0, p) { assert forall|k: int| 0 <= k < p.len() implies #[trigger] d[k] == p[k] by { assert(p[k] == d[0 + k]); } }
}
pub proof fn lemma_14(x: u32) ensures (x & 0x3FFF) as int == x as int % 16384 { assert((x & 0x3FFF) == x % 16384) by (bit_vector); }
pub proof fn lemma_shift(x: u32) ensures (x >> 14) as int == x as int / 16384 { assert((x >> 14) == x / 16384) by (bit_vector); }
pub proof fn lemma_or(a: u32, b: u32, c: u32, e: u32) requires a < 256, b < 256, c < 256, e < 256 ensures (a | (b << 8) | (c << 16) | (e << 24)) as int == e as int * 16777216 + c as int * 65536 + b as int * 256 + a as int {
    assert((a | (b << 8) | (c << 16) | (e << 24)) == add(add(mul(e, 16777216), mul(c, 65536)), add(mul(b, 256), a))) by (bit_vector) requires a < 256, b < 256, c < 256, e < 256;
}
//@fn read_jpeg_dimensions
//@ requires: data@.len() < usize::MAX - 70000
//@ ensures: dims_are(vx_ret, match jscan(data@, 2) { Some(x) => Some(Dims { w: x.0, h: x.1, f: S"JPEG" }), None => None })
//@ opt: into_string
//@ loop 0 inv: data@.len() < usize::MAX - 70000, 2 <= i < data@.len() + 70000, jscan(data@, 2) == jscan(data@, i as int)
//@ loop 0 dec: data@.len() + 70000 - i
//@ begin: broadcast use lemma_jstep;
//@end
pub broadcast proof fn lemma_jstep(d: Seq<u8>, i: int) requires 0 <= i, i + 1 < d.len() ensures #[trigger] jscan(d, i) == (if d[i] != 0xFF || d[i + 1] == 0xFF { jscan(d, i + 1) } else if is_sof(d[i + 1]) && i + 9 < d.len() { Some((be2(d, i + 7), be2(d, i + 5))) } else if d[i + 1] >= 0xC0 && d[i + 1] != 0xD9 && d[i + 1] != 0xDA && i + 3 < d.len() { jscan(d, i + 2 + be2(d, i + 2)) } else { jscan(d, i + 2) }) {}
//@fn read_image_dimensions
//@ opt: into_string, streq
//@ requires: data@.len() < usize::MAX - 70000
//@ ensures: dims_are(vx_ret, header(data@))
//@ begin: proof { lemma_header(data@); assert forall|x: u32| (#[trigger] (x & 0x3FFF)) as int == x as int % 16384 by { lemma_14(x); } assert forall|x: u32| (#[trigger] (x >> 14)) as int == x as int / 16384 by { lemma_shift(x); }
//@   if data@.len() >= 25 { lemma_or(data@[21] as u32, data@[22] as u32, data@[23] as u32, data@[24] as u32); } }
//@end
pub proof fn lemma_header(d: Seq<u8>) ensures forall|p: Seq<u8>| #[trigger] begins(d, p) == at(d, 0, p)
{
    assert forall|p: Seq<u8>| #[trigger] begins(d, p) == at(d, 0, p) by { lemma_starts(d, p); }
}
// ---- values and builders -----------------------------------------------------------------------
//@type generator/images.rs|ImageSource
//@type generator/images.rs|Crop
//@type generator/images.rs|ImageEffect
//@type generator/images.rs|Image
//@type core/placement.rs|ElementPlacement
//@type generator/images.rs|ImageBuilder
pub open spec fn up(c: char) -> char { if 'a' <= c && c <= 'z' { (c as u32 - 32) as char } else { c } }
pub open spec fn low(c: char) -> char { if 'A' <= c && c <= 'Z' { (c as u32 + 32) as char } else { c } }
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as int) < 128 }
pub uninterp spec fn upper_u(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn lower_u(s: Seq<char>) -> Seq<char>;
pub open spec fn upper(s: Seq<char>) -> Seq<char> { if ascii(s) { Seq::new(s.len(), |i: int| up(s[i])) } else { upper_u(s) } }
pub open spec fn lower(s: Seq<char>) -> Seq<char> { if ascii(s) { Seq::new(s.len(), |i: int| low(s[i])) } else { lower_u(s) } }
pub trait VxCase {
    spec fn cs(&self) -> Seq<char>;
    fn vx_to_uppercase(&self) -> (r: String) ensures r@ == upper(self.cs());
    fn vx_to_lowercase(&self) -> (r: String) ensures r@ == lower(self.cs());
}
impl VxCase for str {
    open spec fn cs(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_to_uppercase(&self) -> (r: String) { self.to_uppercase() }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { self.to_lowercase() }
}
// what a file holds (it does not change while a deck is written: assumed)
pub uninterp spec fn file(p: Seq<char>) -> Option<Seq<u8>>;
#[verifier::external_body] pub fn vx_read(p: &String) -> (r: Result<Vec<u8>, VxIoErr>) ensures (r is Ok) == (file(p@) is Some), r is Ok ==> r->Ok_0@ == file(p@)->Some_0 { unimplemented!() }
// the name of a picture not given by path is new every time (a random identifier): nothing is assumed of it
#[verifier::external_body] pub fn vx_uuid() -> String { unimplemented!() }
pub open spec fn ext_of(f: Seq<char>) -> Seq<char> { if upper(f) =~= S"JPEG" { S"jpg" } else { lower(upper(f)) } }
// the bytes a source stands for
pub open spec fn bytes_of(s: Option<ImageSource>) -> Option<Seq<u8>> {
    match s {
        None => None,
        Some(ImageSource::File(p)) => file(p@),
        Some(ImageSource::Bytes(b)) => Some(b@),
        Some(ImageSource::Base64(t)) => if exists|n: int| #[trigger] b64_text(payload(t@), n) { let n = choose|n: int| #[trigger] b64_text(payload(t@), n); Some(Seq::new((n * 3 / 4) as nat, |k: int| b64_byte(payload(t@), n, k) as u8)) } else { None },
    }
}
pub open spec fn same(a: ImageBuilder, b: ImageBuilder) -> bool { a.filename@ == b.filename@ && a.format@ == b.format@ && a.source == b.source }
pub open spec fn built(b: ImageBuilder, i: Image) -> bool {
    i.filename@ == b.filename@ && i.format@ == b.format@ && i.source == b.source && i.width == b.placement.width && i.height == b.placement.height && i.x == b.placement.x && i.y == b.placement.y && i.alt_text is None
}
pub open spec fn given(i: Image, w: u32, h: u32, s: ImageSource) -> bool { i.width == w && i.height == h && i.x == 0 && i.y == 0 && i.source == Some(s) && i.crop is None && i.effects@.len() == 0 && i.alt_text is None }
pub open spec fn rest(a: Image, b: Image) -> bool { a.filename@ == b.filename@ && a.format@ == b.format@ && a.source == b.source && a.width == b.width && a.height == b.height }
//@fn format_and_ext
//@ opt: streq
//@ ensures: vx_ret.0@ == upper(format@), vx_ret.1@ == ext_of(format@)
//@end
//@fn core/placement.rs|ElementPlacement::image_defaults
//@ ensures: vx_ret.x == 0, vx_ret.y == 0, vx_ret.width == 1828800, vx_ret.height == 1828800
//@end
//@fn core/placement.rs|ElementPlacement::new
//@ ensures: vx_ret == (ElementPlacement { x: 0, y: 0, width: 0, height: 0 })
//@end
//@fn core/placement.rs|ElementPlacement::with_size
//@ ensures: vx_ret == (ElementPlacement { x: self.x, y: self.y, width, height })
//@end
//@fn core/placement.rs|ElementPlacement::set_position
//@ ensures: *final(self) == (ElementPlacement { x, y, width: old(self).width, height: old(self).height })
//@end
//@fn core/placement.rs|ElementPlacement::set_size
//@ ensures: *final(self) == (ElementPlacement { x: old(self).x, y: old(self).y, width, height })
//@end
//@fn generate_image_filename
//@ sub: uuid :: Uuid :: new_v4 () =>> vx_uuid ()
//@ end: proof { let t = S"." + ext_of(format@); assert(filename@.subrange(filename@.len() - t.len(), filename@.len() as int) =~= t); }
//@ ensures: vx_ret.1@ == upper(format@), has_suffix(vx_ret.0@, S"." + ext_of(format@))
//@end
//@fn generator/images.rs|Crop::new
//@ ensures: vx_ret == (Crop { left, top, right, bottom })
//@end
//@fn generator/images.rs|Image::with_source
//@ ensures: vx_ret.filename@ == filename@, vx_ret.format@ == format@, given(vx_ret, width, height, source)
//@end
//@fn generator/images.rs|Image::from_bytes
//@ ensures: vx_ret.format@ == upper(format@), given(vx_ret, width, height, ImageSource::Bytes(data)), bytes_of(vx_ret.source) == Some(data@), has_suffix(vx_ret.filename@, S"." + ext_of(format@))
//@end
//@fn generator/images.rs|Image::from_base64
//@ ensures: vx_ret.format@ == upper(format@), vx_ret.source matches Some(ImageSource::Base64(t)) && t@ == data@, vx_ret.width == width && vx_ret.height == height, has_suffix(vx_ret.filename@, S"." + ext_of(format@))
//@end
//@fn generator/images.rs|Image::with_alt_text
//@ ensures: rest(self, vx_ret), vx_ret.x == self.x && vx_ret.y == self.y, vx_ret.crop == self.crop, vx_ret.effects == self.effects, vx_ret.alt_text is Some && vx_ret.alt_text->Some_0@ == alt@
//@end
//@fn generator/images.rs|Image::position
//@ ensures: rest(self, vx_ret), vx_ret.x == x, vx_ret.y == y, vx_ret.crop == self.crop, vx_ret.effects == self.effects, vx_ret.alt_text == self.alt_text
//@end
//@fn generator/images.rs|Image::with_crop
//@ ensures: rest(self, vx_ret), vx_ret.x == self.x, vx_ret.y == self.y, vx_ret.crop == Some(Crop { left, top, right, bottom }), vx_ret.effects == self.effects, vx_ret.alt_text == self.alt_text
//@end
//@fn generator/images.rs|Image::with_effect
//@ ensures: rest(self, vx_ret), vx_ret.x == self.x, vx_ret.y == self.y, vx_ret.crop == self.crop, vx_ret.effects@ == self.effects@.push(effect), vx_ret.alt_text == self.alt_text
//@end
//@fn generator/images.rs|Image::get_bytes
//@ sub: std :: fs :: read =>> vx_read
//@ ensures: (vx_ret is Some) == (bytes_of(self.source) is Some), vx_ret is Some ==> vx_ret->Some_0@ =~= bytes_of(self.source)->Some_0
//@end
//@fn generator/images.rs|Image::mime_type
//@ ensures:
//@   self.format@ =~= S"PNG" ==> vx_ret@ == S"image/png",
//@   self.format@ =~= S"JPG" || self.format@ =~= S"JPEG" ==> vx_ret@ == S"image/jpeg",
//@   self.format@ =~= S"GIF" ==> vx_ret@ == S"image/gif",
//@   self.format@ =~= S"BMP" ==> vx_ret@ == S"image/bmp",
//@   self.format@ =~= S"TIFF" ==> vx_ret@ == S"image/tiff",
//@   self.format@ =~= S"SVG" ==> vx_ret@ == S"image/svg+xml"
//@end
//@fn ImageBuilder::from_base64
//@ ensures: vx_ret.source matches Some(ImageSource::Base64(t)) && t@ == data@, vx_ret.format@ == upper(format@), vx_ret.filename@ =~= S"image." + ext_of(format@), vx_ret.placement == (ElementPlacement { x: 0, y: 0, width, height }), vx_ret.effects@.len() == 0, vx_ret.crop is None
//@end
//@fn ImageBuilder::from_bytes
//@ ensures: vx_ret.source == Some(ImageSource::Bytes(data)), vx_ret.format@ == upper(format@), vx_ret.filename@ =~= S"image." + ext_of(format@), vx_ret.placement == (ElementPlacement { x: 0, y: 0, width, height }), vx_ret.effects@.len() == 0, vx_ret.crop is None
//@end
// the format told from the first bytes of a picture
pub open spec fn told(d: Seq<u8>) -> Seq<char> {
    if at(d, 0, png_sig()) { S"PNG" } else if d.len() >= 4 && at(d, 0, seq![0xFF, 0xD8]) { S"JPEG" } else if at(d, 0, seq![71, 73, 70, 56, 57, 97]) || at(d, 0, seq![71, 73, 70, 56, 55, 97]) { S"GIF" } else { S"PNG" }
}
//@fn ImageBuilder::auto
//@ opt: streq
//@ ensures: vx_ret.source == Some(ImageSource::Bytes(data)), vx_ret.format@ =~= told(data@)
//@end
//@fn ImageBuilder::position
//@ ensures: same(self, vx_ret), vx_ret.placement == (ElementPlacement { x, y, width: self.placement.width, height: self.placement.height }), vx_ret.effects == self.effects, vx_ret.crop == self.crop
//@end
//@fn ImageBuilder::at
//@ ensures: same(self, vx_ret), vx_ret.placement == (ElementPlacement { x, y, width: self.placement.width, height: self.placement.height }), vx_ret.effects == self.effects, vx_ret.crop == self.crop
//@end
//@fn ImageBuilder::size
//@ ensures: same(self, vx_ret), vx_ret.placement == (ElementPlacement { x: self.placement.x, y: self.placement.y, width, height }), vx_ret.effects == self.effects, vx_ret.crop == self.crop
//@end
//@fn ImageBuilder::format
//@ ensures: vx_ret.filename@ == self.filename@, vx_ret.format@ == upper(format@), vx_ret.source == self.source, vx_ret.placement == self.placement, vx_ret.effects == self.effects, vx_ret.crop == self.crop
//@end
//@fn ImageBuilder::crop
//@ ensures: same(self, vx_ret), vx_ret.placement == self.placement, vx_ret.effects == self.effects, vx_ret.crop == Some(Crop { left, top, right, bottom })
//@end
//@fn ImageBuilder::shadow
//@ ensures: same(self, vx_ret), vx_ret.placement == self.placement, vx_ret.effects@ == self.effects@.push(ImageEffect::Shadow), vx_ret.crop == self.crop
//@end
//@fn ImageBuilder::reflection
//@ ensures: same(self, vx_ret), vx_ret.placement == self.placement, vx_ret.effects@ == self.effects@.push(ImageEffect::Reflection), vx_ret.crop == self.crop
//@end
//@fn ImageBuilder::glow
//@ ensures: same(self, vx_ret), vx_ret.placement == self.placement, vx_ret.effects@ == self.effects@.push(ImageEffect::Glow), vx_ret.crop == self.crop
//@end
//@fn ImageBuilder::soft_edges
//@ ensures: same(self, vx_ret), vx_ret.placement == self.placement, vx_ret.effects@ == self.effects@.push(ImageEffect::SoftEdges), vx_ret.crop == self.crop
//@end
//@fn ImageBuilder::inner_shadow
//@ ensures: same(self, vx_ret), vx_ret.placement == self.placement, vx_ret.effects@ == self.effects@.push(ImageEffect::InnerShadow), vx_ret.crop == self.crop
//@end
//@fn ImageBuilder::blur
//@ ensures: same(self, vx_ret), vx_ret.placement == self.placement, vx_ret.effects@ == self.effects@.push(ImageEffect::Blur), vx_ret.crop == self.crop
//@end
//@fn ImageBuilder::build
//@ ensures: built(self, vx_ret), vx_ret.crop == self.crop, vx_ret.effects == self.effects
//@end
//@fn ImageBuilder::build_with_crop
//@ ensures: built(self, vx_ret), vx_ret.crop == Some(Crop { left, top, right, bottom })
//@end
//@fn ImageBuilder::build_with_effects
//@ ensures: built(self, vx_ret), vx_ret.effects@ =~= seq![ImageEffect::Shadow, ImageEffect::Reflection]
//@end
//@fn ImageBuilder::build_with_shadow
//@ ensures: built(self, vx_ret), vx_ret.effects@ =~= seq![ImageEffect::Shadow]
//@end
//@fn ImageBuilder::build_with_reflection
//@ ensures: built(self, vx_ret), vx_ret.effects@ =~= seq![ImageEffect::Reflection]
//@end
//@fn ImageBuilder::build_with_glow
//@ ensures: built(self, vx_ret), vx_ret.effects@ =~= seq![ImageEffect::Glow]
//@end
//@fn ImageBuilder::build_with_soft_edges
//@ ensures: built(self, vx_ret), vx_ret.effects@ =~= seq![ImageEffect::SoftEdges]
//@end
//@fn ImageBuilder::build_with_inner_shadow
//@ ensures: built(self, vx_ret), vx_ret.effects@ =~= seq![ImageEffect::InnerShadow]
//@end
//@fn ImageBuilder::build_with_blur
//@ ensures: built(self, vx_ret), vx_ret.effects@ =~= seq![ImageEffect::Blur]
//@end
//%extras
}
fn main() {}
