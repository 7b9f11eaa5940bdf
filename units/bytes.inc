// Byte lengths and byte offsets of UTF-8 strings (assumed contracts of str::len, slicing, from_str_radix)
verus! {
pub open spec fn u8w(c: char) -> int { if (c as int) < 0x80 { 1 } else if (c as int) < 0x800 { 2 } else if (c as int) < 0x10000 { 3 } else { 4 } }
pub open spec fn blen(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + u8w(s.last()) } }
pub open spec fn all_ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as int) < 128 }
pub proof fn lemma_blen_ascii(s: Seq<char>) requires all_ascii(s) ensures blen(s) == s.len() decreases s.len() {
    if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i] as int) < 128 by { assert(s.drop_last()[i] == s[i]); } lemma_blen_ascii(s.drop_last()); }
}
pub proof fn lemma_blen_ge(s: Seq<char>) ensures blen(s) >= s.len() decreases s.len() { if s.len() > 0 { lemma_blen_ge(s.drop_last()); } }
// the character position i is the byte offset b
pub open spec fn at_byte(s: Seq<char>, i: int, b: int) -> bool { 0 <= i <= s.len() && blen(s.take(i)) == b }
pub proof fn lemma_at_byte_ascii(s: Seq<char>, b: int) requires all_ascii(s), 0 <= b <= s.len() ensures at_byte(s, b, b) {
    assert forall|i: int| 0 <= i < s.take(b).len() implies (#[trigger] s.take(b)[i] as int) < 128 by { assert(s.take(b)[i] == s[i]); }
    lemma_blen_ascii(s.take(b));
}
// &s[a..b]: both offsets between two characters, in order
#[verifier::opaque]
pub open spec fn byte_range(s: Seq<char>, a: int, b: int) -> bool { exists|i: int, j: int| i <= j && #[trigger] at_byte(s, i, a) && #[trigger] at_byte(s, j, b) }
#[verifier::opaque]
pub open spec fn byte_sub(s: Seq<char>, a: int, b: int) -> Seq<char> { let i = choose|i: int| #[trigger] at_byte(s, i, a); let j = choose|j: int| #[trigger] at_byte(s, j, b); s.subrange(i, j) }
pub proof fn lemma_byte_sub_ascii(s: Seq<char>, a: int, b: int) requires all_ascii(s), 0 <= a <= b <= s.len() ensures byte_range(s, a, b), byte_sub(s, a, b) == s.subrange(a, b) {
    reveal(byte_range); reveal(byte_sub);
    lemma_at_byte_ascii(s, a); lemma_at_byte_ascii(s, b);
    assert forall|i: int, c: int| #[trigger] at_byte(s, i, c) implies i == c by { lemma_at_byte_ascii(s, i); }
}
pub open spec fn skip_c(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s[0] == c { skip_c(s.skip(1), c) } else { s } }
pub open spec fn hexv(c: char) -> int {
    if '0' <= c && c <= '9' { c as int - '0' as int } else if 'a' <= c && c <= 'f' { c as int - 'a' as int + 10 } else if 'A' <= c && c <= 'F' { c as int - 'A' as int + 10 } else { -1 }
}
pub open spec fn all_hex(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> hexv(#[trigger] s[i]) >= 0 }
pub open spec fn hexval(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { hexval(s.drop_last()) * 16 + hexv(s.last()) } }
pub struct VxParseErr { pub c: u8 }
pub trait VxStrB {
    spec fn bsv(&self) -> Seq<char>;
    fn vx_len(&self) -> (r: usize) ensures r == blen(self.bsv());
    fn vx_is_ascii(&self) -> (r: bool) ensures r == all_ascii(self.bsv());
    fn vx_str_range(&self, a: usize, b: usize) -> (r: &str) requires byte_range(self.bsv(), a as int, b as int) ensures r@ == byte_sub(self.bsv(), a as int, b as int);
    fn vx_str_from(&self, a: usize) -> (r: &str) requires byte_range(self.bsv(), a as int, blen(self.bsv())) ensures r@ == byte_sub(self.bsv(), a as int, blen(self.bsv()));
    fn vx_str_to(&self, b: usize) -> (r: &str) requires byte_range(self.bsv(), 0, b as int) ensures r@ == byte_sub(self.bsv(), 0, b as int);
    fn vx_trim_start_matches_c(&self, c: char) -> (r: &str) ensures r@ == skip_c(self.bsv(), c);
}
impl VxStrB for str {
    open spec fn bsv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body] fn vx_is_ascii(&self) -> (r: bool) { self.is_ascii() }
    #[verifier::external_body] fn vx_str_range(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
    #[verifier::external_body] fn vx_str_from(&self, a: usize) -> (r: &str) { &self[a..] }
    #[verifier::external_body] fn vx_str_to(&self, b: usize) -> (r: &str) { &self[..b] }
    #[verifier::external_body] fn vx_trim_start_matches_c(&self, c: char) -> (r: &str) { self.trim_start_matches(c) }
}
// documented behaviour of u8::from_str_radix(s, 16): an optional '+', then at least one digit, value at most 255
pub open spec fn radix16(s: Seq<char>) -> Option<int> {
    let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if d.len() > 0 && all_hex(d) && hexval(d) <= 255 { Some(hexval(d)) } else { None }
}
pub struct VxR8 { pub v: Result<u8, VxParseErr> }
impl VxR8 {
    pub open spec fn val(self) -> Option<int> { if self.v is Ok { Some(self.v->Ok_0 as int) } else { None } }
    pub fn ok(self) -> (r: Option<u8>) ensures r is Some <==> self.val() is Some, r is Some ==> r->Some_0 as int == self.val()->Some_0 { match self.v { Ok(x) => Some(x), Err(_) => None } }
    pub fn unwrap_or(self, d: u8) -> (r: u8) ensures r as int == (match self.val() { Some(x) => x, None => d as int }) { match self.v { Ok(x) => x, Err(_) => d } }
    pub fn is_ok(&self) -> (r: bool) ensures r == (self.val() is Some) { match self.v { Ok(_) => true, Err(_) => false } }
}
#[verifier::external_body]
pub fn u8_from_str_radix(s: &str, radix: u32) -> (r: VxR8) requires radix == 16 ensures r.val() == radix16(s@)
{ VxR8 { v: u8::from_str_radix(s, radix).map_err(|_| VxParseErr { c: 0 }) } }
pub open spec fn is_ahex(b: u8) -> bool { 0x30 <= b <= 0x39 || 0x41 <= b <= 0x46 || 0x61 <= b <= 0x66 }
pub trait VxHexB { fn vx_is_ascii_hexdigit(&self) -> (r: bool) ensures r == self.ahx(); spec fn ahx(&self) -> bool; }
impl VxHexB for u8 { open spec fn ahx(&self) -> bool { is_ahex(*self) } fn vx_is_ascii_hexdigit(&self) -> (r: bool) { 0x30 <= *self && *self <= 0x39 || 0x41 <= *self && *self <= 0x46 || 0x61 <= *self && *self <= 0x66 } }
// {:02X}
pub open spec fn hexd(n: int) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' }
    else if n == 8 { '8' } else if n == 9 { '9' } else if n == 10 { 'A' } else if n == 11 { 'B' } else if n == 12 { 'C' } else if n == 13 { 'D' } else if n == 14 { 'E' } else { 'F' }
}
pub open spec fn hex2(x: u8) -> Seq<char> { seq![hexd(x as int / 16), hexd(x as int % 16)] }
pub trait VxFmtHex { fn vx_fmt_02X(&self, s: &mut String) ensures final(s)@ == old(s)@ + self.h2(); spec fn h2(&self) -> Seq<char>; }
impl VxFmtHex for u8 { open spec fn h2(&self) -> Seq<char> { hex2(*self) } #[verifier::external_body] fn vx_fmt_02X(&self, s: &mut String) { s.push_str(&format!("{:02X}", self)) } }
pub proof fn lemma_hex2(x: u8) ensures hexval(hex2(x)) == x as int, all_hex(hex2(x)), all_ascii(hex2(x)), hex2(x)[0] != '#', hex2(x)[0] != '+' {
    let s = hex2(x);
    assert(hexv(s[0]) == x as int / 16 && hexv(s[1]) == x as int % 16);
    assert(s.drop_last() =~= seq![s[0]]);
    assert(s.drop_last().drop_last() =~= Seq::<char>::empty());
    assert(hexval(s.drop_last().drop_last()) == 0);
    assert(hexval(s.drop_last()) == hexv(s[0]));
}
pub proof fn lemma_hexval2(s: Seq<char>) requires s.len() == 2 ensures hexval(s) == hexv(s[0]) * 16 + hexv(s[1]) {
    assert(s.drop_last().drop_last() =~= Seq::<char>::empty());
    assert(hexval(s.drop_last().drop_last()) == 0);
    assert(hexval(s.drop_last()) == hexv(s[0]));
}
// a place between two characters has one offset, and the offsets grow
pub proof fn lemma_blen_step(s: Seq<char>, i: int) requires 0 <= i < s.len() ensures blen(s.take(i + 1)) == blen(s.take(i)) + u8w(s[i]) { assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); }
pub proof fn lemma_blen_mono(s: Seq<char>, i: int, j: int) requires 0 <= i < j <= s.len() ensures blen(s.take(i)) < blen(s.take(j)) decreases j - i {
    lemma_blen_step(s, j - 1);
    if i < j - 1 { lemma_blen_mono(s, i, j - 1); }
}
pub proof fn lemma_at_one(s: Seq<char>, i: int, j: int, b: int) requires at_byte(s, i, b), at_byte(s, j, b) ensures i == j { if i < j { lemma_blen_mono(s, i, j); } if j < i { lemma_blen_mono(s, j, i); } }
pub proof fn lemma_byte_sub(s: Seq<char>, i: int, j: int, a: int, b: int) requires at_byte(s, i, a), at_byte(s, j, b), a <= b ensures i <= j, byte_range(s, a, b), byte_sub(s, a, b) == s.subrange(i, j) {
    reveal(byte_range); reveal(byte_sub);
    if j < i { lemma_blen_mono(s, j, i); }
    let i2 = choose|k: int| #[trigger] at_byte(s, k, a); let j2 = choose|k: int| #[trigger] at_byte(s, k, b);
    lemma_at_one(s, i, i2, a); lemma_at_one(s, j, j2, b);
}
pub proof fn lemma_at_end(s: Seq<char>) ensures at_byte(s, s.len() as int, blen(s)), at_byte(s, 0, 0) { assert(s.take(s.len() as int) =~= s); assert(s.take(0) =~= Seq::<char>::empty()); }
pub proof fn lemma_blen_le(s: Seq<char>, i: int) requires 0 <= i <= s.len() ensures blen(s.take(i)) <= blen(s) { assert(s.take(s.len() as int) =~= s); if i < s.len() { lemma_blen_mono(s, i, s.len() as int); } }
}
