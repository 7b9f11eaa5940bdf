//@include prelude.rs
//@include bytes.inc
//@opt strslice
//@opt remap_len
//@lits
//@opt optmatch
verus! {
//@type elements/color.rs|RgbColor
//@type elements/color.rs|SchemeColor
//@type elements/color.rs|Color
//@type helpers/colors.rs|ColorValue

// "RRGGBB" read as three pairs of hexadecimal digits
pub open spec fn pair(s: Seq<char>, k: int) -> Seq<char> { s.subrange(2 * k, 2 * k + 2) }
pub open spec fn rgb_of(s: Seq<char>) -> RgbColor { RgbColor { r: hexval(pair(s, 0)) as u8, g: hexval(pair(s, 1)) as u8, b: hexval(pair(s, 2)) as u8 } }
pub open spec fn is_rgb(s: Seq<char>) -> bool { s.len() == 6 && all_hex(s) }
pub open spec fn hex6(r: u8, g: u8, b: u8) -> Seq<char> { hex2(r) + hex2(g) + hex2(b) }
pub open spec fn is_rgba(s: Seq<char>) -> bool { s.len() == 8 && all_hex(s) }
pub proof fn lemma_hex_ascii(s: Seq<char>) requires all_hex(s) ensures all_ascii(s) {
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as int) < 128 by { assert(hexv(s[i]) >= 0); }
}
// every pair of hexadecimal digits has a value of one byte
pub proof fn lemma_pair(s: Seq<char>, k: int) requires all_hex(s), 0 <= k, 2 * k + 2 <= s.len()
    ensures radix16(pair(s, k)) == Some(hexval(pair(s, k))), 0 <= hexval(pair(s, k)) <= 255
{
    let p = pair(s, k);
    assert(p[0] == s[2 * k] && p[1] == s[2 * k + 1]);
    assert(hexv(p[0]) >= 0 && hexv(p[1]) >= 0);
    assert(hexv('+') == -1);
    lemma_hexval2(p);
    assert(all_hex(p)) by { assert forall|i: int| 0 <= i < p.len() implies hexv(#[trigger] p[i]) >= 0 by {} }
}
pub open spec fn bytes_hex(b: Seq<u8>) -> bool { forall|j: int| 0 <= j < b.len() ==> is_ahex(#[trigger] b[j]) }
// a text consists of hexadecimal digits exactly if its bytes do
pub proof fn lemma_bytes_hex(s: Seq<char>, b: Seq<u8>) requires ascii_bytes(s, b) ensures bytes_hex(b) == all_hex(s)
{
    if bytes_hex(b) {
        assert forall|i: int| 0 <= i < s.len() implies hexv(#[trigger] s[i]) >= 0 by {
            if (s[i] as int) < 128 { let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j] as int == s[i] as int; assert(is_ahex(b[j])); }
            else { let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j] as int >= 128; assert(is_ahex(b[j])); }
        }
    }
    if all_hex(s) {
        assert forall|j: int| 0 <= j < b.len() implies is_ahex(#[trigger] b[j]) by {
            if (b[j] as int) < 128 { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] as int == b[j] as int; assert(hexv(s[i]) >= 0); }
            else { lemma_hex_ascii(s); assert((s[0] as int) < 128); }
        }
    }
}
// all that the readers need to know about a text
pub proof fn lemma_text(s: Seq<char>)
    ensures
        forall|b: Seq<u8>| #[trigger] ascii_bytes(s, b) ==> bytes_hex(b) == all_hex(s),
        all_hex(s) ==> all_ascii(s), blen(s) >= 0,
        s.len() == 6 && all_hex(s) ==> pair(s, 0) == s.subrange(0, 2) && pair(s, 1) == s.subrange(2, 4) && pair(s, 2) == s.subrange(4, 6),
        all_ascii(s) ==> blen(s) == s.len() && (forall|a: int, b: int| 0 <= a <= b <= s.len() ==> #[trigger] byte_range(s, a, b)) && (forall|a: int, b: int| 0 <= a <= b <= s.len() ==> #[trigger] byte_sub(s, a, b) == s.subrange(a, b)),
        all_hex(s) ==> (forall|k: int| 0 <= k && 2 * k + 2 <= s.len() ==> radix16(#[trigger] pair(s, k)) == Some(hexval(pair(s, k))) && 0 <= hexval(pair(s, k)) <= 255),
{
    assert forall|b: Seq<u8>| #[trigger] ascii_bytes(s, b) implies bytes_hex(b) == all_hex(s) by { lemma_bytes_hex(s, b); }
    if all_hex(s) { lemma_hex_ascii(s); assert forall|k: int| 0 <= k && 2 * k + 2 <= s.len() implies radix16(#[trigger] pair(s, k)) == Some(hexval(pair(s, k))) && 0 <= hexval(pair(s, k)) <= 255 by { lemma_pair(s, k); } }
    lemma_blen_ge(s);
    if all_ascii(s) {
        lemma_blen_ascii(s);
        assert forall|a: int, b: int| 0 <= a <= b <= s.len() implies #[trigger] byte_range(s, a, b) by { lemma_byte_sub_ascii(s, a, b); }
        assert forall|a: int, b: int| 0 <= a <= b <= s.len() implies #[trigger] byte_sub(s, a, b) == s.subrange(a, b) by { lemma_byte_sub_ascii(s, a, b); }
    }
}
// the notation written for a colour is read back as that colour
pub proof fn theorem_round_trip(r: u8, g: u8, b: u8)
    ensures is_rgb(hex6(r, g, b)), rgb_of(hex6(r, g, b)) == (RgbColor { r, g, b }), skip_c(hex6(r, g, b), '#') == hex6(r, g, b)
{
    lemma_hex2(r); lemma_hex2(g); lemma_hex2(b);
    let s = hex6(r, g, b);
    assert(pair(s, 0) =~= hex2(r)); assert(pair(s, 1) =~= hex2(g)); assert(pair(s, 2) =~= hex2(b));
    assert forall|i: int| 0 <= i < s.len() implies hexv(#[trigger] s[i]) >= 0 by {
        if i < 2 { assert(s[i] == hex2(r)[i]); } else if i < 4 { assert(s[i] == hex2(g)[i - 2]); } else { assert(s[i] == hex2(b)[i - 4]); }
    }
    assert(s[0] == hex2(r)[0]);
}
//@fn elements/color.rs|RgbColor::new
//@ ensures: vx_ret == (RgbColor { r, g, b })
//@end
//@fn elements/color.rs|RgbColor::from_hex
//@ sub: u8 :: from_str_radix =>> u8_from_str_radix
//@ begin: proof { lemma_text(skip_c(hex@, '#')); }
//@ loop 0 inv: forall|j: int| 0 <= j < vx_i0 ==> is_ahex(#[trigger] vx_s0@[j]), ascii_bytes(hex@, vx_s0@), !vx_r0 ==> vx_i0 < vx_s0@.len() && !is_ahex(vx_s0@[vx_i0 as int])
//@ ensures: vx_ret == (if is_rgb(skip_c(hex@, '#')) { Some(rgb_of(skip_c(hex@, '#'))) } else { None::<RgbColor> })
//@end
//@fn elements/color.rs|RgbColor::to_hex
//@ ensures: vx_ret@ =~= hex6(self.r, self.g, self.b)
//@end
//@fn elements/color.rs|RgbColor::to_xml trait ToXml
//@ ensures: vx_ret@ =~= S"<a:srgbClr val=\"" + hex6(self.r, self.g, self.b) + S"\"/>"
//@end
//@fn elements/color.rs|SchemeColor::as_str
//@end
//@fn elements/color.rs|SchemeColor::to_xml trait ToXml
//@end
//@fn elements/color.rs|Color::to_xml trait ToXml
//@ ensures: self is Rgb ==> vx_ret@ =~= S"<a:srgbClr val=\"" + hex6(self->Rgb_0.r, self->Rgb_0.g, self->Rgb_0.b) + S"\"/>"
//@end
//@fn elements/color.rs|Color::rgb
//@ ensures: vx_ret == Color::Rgb(RgbColor { r, g, b })
//@end
//@fn elements/color.rs|Color::from_hex
//@ ensures: vx_ret == (if is_rgb(skip_c(hex@, '#')) { Some(Color::Rgb(rgb_of(skip_c(hex@, '#')))) } else { None::<Color> })
//@end
// the reader that always answers: well-formed notations give their colour, anything of another length or alphabet black or per pair
pub open spec fn pair_or(s: Seq<char>, k: int, d: u8) -> u8 { match radix16(pair(s, k)) { Some(v) => v as u8, None => d } }
pub open spec fn cv_of(s: Seq<char>) -> ColorValue {
    if all_ascii(s) && s.len() == 6 { ColorValue { r: pair_or(s, 0, 0), g: pair_or(s, 1, 0), b: pair_or(s, 2, 0), a: 255 } }
    else if all_ascii(s) && s.len() == 8 { ColorValue { r: pair_or(s, 0, 0), g: pair_or(s, 1, 0), b: pair_or(s, 2, 0), a: pair_or(s, 3, 255) } }
    else { ColorValue { r: 0, g: 0, b: 0, a: 255 } }
}
pub proof fn theorem_value_notation(s: Seq<char>)
    ensures is_rgb(s) ==> cv_of(s) == (ColorValue { r: rgb_of(s).r, g: rgb_of(s).g, b: rgb_of(s).b, a: 255 }),
        is_rgba(s) ==> cv_of(s) == (ColorValue { r: rgb_of(s).r, g: rgb_of(s).g, b: rgb_of(s).b, a: hexval(pair(s, 3)) as u8 }),
{ lemma_text(s); }
pub proof fn theorem_round_trip_alpha(r: u8, g: u8, b: u8, a: u8)
    ensures cv_of(skip_c(hex6(r, g, b) + hex2(a), '#')) == (ColorValue { r, g, b, a }), cv_of(skip_c(hex6(r, g, b), '#')) == (ColorValue { r, g, b, a: 255 })
{
    theorem_round_trip(r, g, b);
    lemma_hex2(r); lemma_hex2(a);
    let s = hex6(r, g, b); let t = s + hex2(a);
    assert(pair(t, 0) =~= pair(s, 0)); assert(pair(t, 1) =~= pair(s, 1)); assert(pair(t, 2) =~= pair(s, 2)); assert(pair(t, 3) =~= hex2(a));
    assert forall|i: int| 0 <= i < t.len() implies hexv(#[trigger] t[i]) >= 0 by { if i < 6 { assert(t[i] == s[i]); assert(hexv(s[i]) >= 0); } else { assert(t[i] == hex2(a)[i - 6]); } }
    assert(t[0] == hex2(r)[0]);
    theorem_value_notation(s); theorem_value_notation(t);
}
//@fn helpers/colors.rs|ColorValue::rgb
//@ ensures: vx_ret == (ColorValue { r, g, b, a: 255 })
//@end
//@fn helpers/colors.rs|ColorValue::rgba
//@ ensures: vx_ret == (ColorValue { r, g, b, a })
//@end
//@fn helpers/colors.rs|ColorValue::from_hex
//@ sub: u8 :: from_str_radix =>> u8_from_str_radix
//@ begin: proof { lemma_text(skip_c(hex@, '#')); }
//@ ensures: vx_ret == cv_of(skip_c(hex@, '#'))
//@end
//@fn helpers/colors.rs|ColorValue::to_hex
//@ ensures: vx_ret@ =~= hex6(self.r, self.g, self.b)
//@end
//@fn helpers/colors.rs|ColorValue::to_hex_alpha
//@ ensures: vx_ret@ =~= hex6(self.r, self.g, self.b) + hex2(self.a)
//@end
//@fn helpers/colors.rs|ColorValue::invert
//@ ensures: vx_ret == (ColorValue { r: (255 - self.r) as u8, g: (255 - self.g) as u8, b: (255 - self.b) as u8, a: self.a })
//@end
//@fn helpers/colors.rs|ColorValue::to_color
//@ ensures: vx_ret == Color::Rgb(RgbColor { r: self.r, g: self.g, b: self.b })
//@end
//@fn helpers/mod.rs|rgb
//@ ensures: vx_ret == Color::Rgb(RgbColor { r, g, b })
//@end
//@fn helpers/mod.rs|hex
//@ sub: u8 :: from_str_radix =>> u8_from_str_radix
//@ begin: proof { lemma_text(skip_c(color@, '#')); }
//@ ensures: vx_ret == ({ let s = skip_c(color@, '#'); if all_ascii(s) && s.len() == 6 { Color::Rgb(RgbColor { r: pair_or(s, 0, 0), g: pair_or(s, 1, 0), b: pair_or(s, 2, 0) }) } else { Color::Rgb(RgbColor { r: 0, g: 0, b: 0 }) } })
//@end
//%extras
}
fn main() {}
