verus! {
// ---- escaping, stated by what an XML reader gives back --------------------------------------
pub open spec fn special(c: char) -> bool { c == '&' || c == '<' || c == '>' || c == '"' || c == '\'' }
// the character references an XML reader resolves to c (the spellings this crate may use)
pub open spec fn is_ref(e: Seq<char>, c: char) -> bool {
    ||| (c == '&' && ((e.len() == 5 && e[0] == '&' && e[1] == 'a' && e[2] == 'm' && e[3] == 'p' && e[4] == ';') || (e.len() == 5 && e[0] == '&' && e[1] == '#' && e[2] == '3' && e[3] == '8' && e[4] == ';')))
    ||| (c == '<' && ((e.len() == 4 && e[0] == '&' && e[1] == 'l' && e[2] == 't' && e[3] == ';') || (e.len() == 5 && e[0] == '&' && e[1] == '#' && e[2] == '6' && e[3] == '0' && e[4] == ';')))
    ||| (c == '>' && ((e.len() == 4 && e[0] == '&' && e[1] == 'g' && e[2] == 't' && e[3] == ';') || (e.len() == 5 && e[0] == '&' && e[1] == '#' && e[2] == '6' && e[3] == '2' && e[4] == ';')))
    ||| (c == '"' && ((e.len() == 6 && e[0] == '&' && e[1] == 'q' && e[2] == 'u' && e[3] == 'o' && e[4] == 't' && e[5] == ';') || (e.len() == 5 && e[0] == '&' && e[1] == '#' && e[2] == '3' && e[3] == '4' && e[4] == ';')))
    ||| (c == '\'' && ((e.len() == 6 && e[0] == '&' && e[1] == 'a' && e[2] == 'p' && e[3] == 'o' && e[4] == 's' && e[5] == ';') || (e.len() == 5 && e[0] == '&' && e[1] == '#' && e[2] == '3' && e[3] == '9' && e[4] == ';')))
}
// out is s with every character of D replaced by a reference to it
#[verifier::opaque]
pub open spec fn enc(out: Seq<char>, s: Seq<char>, d: Set<char>) -> bool decreases s.len() {
    if s.len() == 0 { out.len() == 0 } else {
        ||| (out.len() >= 1 && enc(out.take(out.len() - 1), s.drop_last(), d) && chunk(out.skip(out.len() - 1), s.last(), d))
        ||| (out.len() >= 4 && enc(out.take(out.len() - 4), s.drop_last(), d) && chunk(out.skip(out.len() - 4), s.last(), d))
        ||| (out.len() >= 5 && enc(out.take(out.len() - 5), s.drop_last(), d) && chunk(out.skip(out.len() - 5), s.last(), d))
        ||| (out.len() >= 6 && enc(out.take(out.len() - 6), s.drop_last(), d) && chunk(out.skip(out.len() - 6), s.last(), d))
    }
}
pub proof fn split(out: Seq<char>, s: Seq<char>, d: Set<char>) -> (k: int)
    requires enc(out, s, d), s.len() > 0
    ensures 0 <= k < out.len(), enc(out.take(k), s.drop_last(), d), chunk(out.skip(k), s.last(), d)
{
    reveal_with_fuel(enc, 2);
    if enc(out.take(out.len() - 1), s.drop_last(), d) && chunk(out.skip(out.len() - 1), s.last(), d) { out.len() - 1 }
    else if out.len() >= 4 && enc(out.take(out.len() - 4), s.drop_last(), d) && chunk(out.skip(out.len() - 4), s.last(), d) { out.len() - 4 }
    else if out.len() >= 5 && enc(out.take(out.len() - 5), s.drop_last(), d) && chunk(out.skip(out.len() - 5), s.last(), d) { out.len() - 5 }
    else { out.len() - 6 }
}
pub open spec fn chunk(e: Seq<char>, c: char, d: Set<char>) -> bool {
    if d.contains(c) { is_ref(e, c) } else { e.len() == 1 && e[0] == c }
}
pub open spec fn all5() -> Set<char> { set!['&', '<', '>', '"', '\''] }
// the escaped text is safe in element content and in a quoted attribute value
pub open spec fn escaped(out: Seq<char>, s: Seq<char>) -> bool { exists|d: Set<char>| #[trigger] enc(out, s, d) && all5().subset_of(d) && d.subset_of(all5()) }
pub open spec fn escaped_attr(out: Seq<char>, s: Seq<char>) -> bool { exists|d: Set<char>| #[trigger] enc(out, s, d) && d.contains('&') && d.contains('<') && d.contains('"') && d.subset_of(all5()) }

pub proof fn lemma_enc_push(out: Seq<char>, s: Seq<char>, d: Set<char>, e: Seq<char>, c: char)
    requires enc(out, s, d), chunk(e, c, d)
    ensures enc(out + e, s.push(c), d)
{
    reveal_with_fuel(enc, 2);
    let o2 = out + e; let s2 = s.push(c);
    assert(s2.drop_last() =~= s); assert(s2.last() == c);
    assert(o2.take(out.len() as int) =~= out);
    assert(o2.skip(out.len() as int) =~= e);
    assert(e.len() == 1 || e.len() == 4 || e.len() == 5 || e.len() == 6);
    assert(out.len() == o2.len() - e.len());
}
pub proof fn lemma_enc_id(s: Seq<char>, d: Set<char>)
    requires forall|i: int| 0 <= i < s.len() ==> !d.contains(#[trigger] s[i])
    ensures enc(s, s, d) decreases s.len()
{
    reveal_with_fuel(enc, 2);
    if s.len() > 0 {
        lemma_enc_id(s.drop_last(), d);
        lemma_enc_push(s.drop_last(), s.drop_last(), d, seq![s.last()], s.last());
        assert(s.drop_last() + seq![s.last()] =~= s);
        assert(s.drop_last().push(s.last()) =~= s);
    }
}
pub proof fn lemma_enc_empty(d: Set<char>) ensures enc(Seq::empty(), Seq::empty(), d) { reveal_with_fuel(enc, 2); }
pub proof fn lemma_rep_add(a: Seq<char>, b: Seq<char>, c: char, by: Seq<char>)
    ensures rep1(a + b, c, by) == rep1(a, c, by) + rep1(b, c, by) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(rep1(a, c, by) + rep1(b, c, by) =~= rep1(b, c, by)); }
    else {
        lemma_rep_add(a.skip(1), b, c, by);
        assert((a + b).skip(1) =~= a.skip(1) + b);
        assert((a + b)[0] == a[0]);
        let h = if a[0] == c { by } else { seq![a[0]] };
        assert(h + (rep1(a.skip(1), c, by) + rep1(b, c, by)) =~= (h + rep1(a.skip(1), c, by)) + rep1(b, c, by));
    }
}
pub proof fn lemma_rep_none(a: Seq<char>, c: char, by: Seq<char>)
    requires forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] != c
    ensures rep1(a, c, by) == a decreases a.len()
{
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.skip(1).len() implies #[trigger] a.skip(1)[i] != c by { assert(a.skip(1)[i] == a[i + 1]); }
        lemma_rep_none(a.skip(1), c, by);
        assert(seq![a[0]] + a.skip(1) =~= a);
    } else { assert(rep1(a, c, by) =~= a); }
}
pub proof fn lemma_rep_chunk(e: Seq<char>, x: char, d: Set<char>, c: char, by: Seq<char>)
    requires chunk(e, x, d), is_ref(by, c), !d.contains(c), special(c), d.subset_of(all5()), c == '&' ==> d == Set::<char>::empty()
    ensures chunk(rep1(e, c, by), x, d.insert(c))
{
    if d.contains(x) {
        lemma_rep_none(e, c, by);
    } else if x == c {
        assert(e.skip(1) =~= Seq::<char>::empty());
        assert(rep1(e.skip(1), c, by) =~= Seq::<char>::empty());
        assert(by + Seq::<char>::empty() =~= by);
        assert(rep1(e, c, by) =~= by);
    } else {
        lemma_rep_none(e, c, by);
    }
}
// one `.replace(c, by)` step, in any order as long as '&' comes first
pub broadcast proof fn lemma_rep_step(out: Seq<char>, s: Seq<char>, d: Set<char>, c: char, by: Seq<char>)
    requires #[trigger] enc(out, s, d), is_ref(by, c), !d.contains(c), special(c), d.subset_of(all5()), c == '&' ==> d == Set::<char>::empty()
    ensures enc(#[trigger] rep1(out, c, by), s, d.insert(c)) decreases s.len()
{
    reveal_with_fuel(enc, 2);
    if s.len() == 0 { assert(rep1(out, c, by).len() == 0); }
    else {
        let k = split(out, s, d);
        lemma_rep_step(out.take(k), s.drop_last(), d, c, by);
        lemma_rep_chunk(out.skip(k), s.last(), d, c, by);
        lemma_rep_add(out.take(k), out.skip(k), c, by);
        assert(out.take(k) + out.skip(k) =~= out);
        lemma_enc_push(rep1(out.take(k), c, by), s.drop_last(), d.insert(c), rep1(out.skip(k), c, by), s.last());
        assert(s.drop_last().push(s.last()) =~= s);
    }
}

// what a reader resolves: decode is total (an unknown reference is left alone)
pub open spec fn decode(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::<char>::empty() }
    else if s[0] == '&' && s.len() >= 4 && ref_at(s, 4) != '\0' { seq![ref_at(s, 4)] + decode(s.skip(4)) }
    else if s[0] == '&' && s.len() >= 5 && ref_at(s, 5) != '\0' { seq![ref_at(s, 5)] + decode(s.skip(5)) }
    else if s[0] == '&' && s.len() >= 6 && ref_at(s, 6) != '\0' { seq![ref_at(s, 6)] + decode(s.skip(6)) }
    else { seq![s[0]] + decode(s.skip(1)) }
}
pub open spec fn ref_at(s: Seq<char>, n: int) -> char {
    let e = s.take(n);
    if is_ref(e, '&') { '&' } else if is_ref(e, '<') { '<' } else if is_ref(e, '>') { '>' } else if is_ref(e, '"') { '"' } else if is_ref(e, '\'') { '\'' } else { '\0' }
}
pub proof fn lemma_decode_chunk(e: Seq<char>, c: char, d: Set<char>, b: Seq<char>)
    requires chunk(e, c, d), d.contains('&'), d.subset_of(all5())
    ensures decode(e + b) == seq![c] + decode(b)
{
    let s = e + b;
    assert(s.skip(e.len() as int) =~= b);
    assert(s.take(e.len() as int) =~= e);
    if d.contains(c) {
        assert(is_ref(e, c));
        assert(special(c));
        assert(s[0] == e[0]);
        // no shorter reference is a prefix of a longer one: they end in ';' and contain only one
        assert forall|n: int| 4 <= n < e.len() implies ref_at(s, n) == '\0' by {
            assert(s.take(n)[n - 1] == e[n - 1]);
            assert(e[n - 1] != ';');
        }
        assert(ref_at(s, e.len() as int) == c) by { lemma_ref_unique(e); }
    } else {
        assert(c != '&');
        assert(s[0] == c);
    }
}
pub proof fn lemma_ref_unique(e: Seq<char>)
    ensures forall|a: char, b: char| is_ref(e, a) && is_ref(e, b) ==> a == b
{
    assert forall|a: char, b: char| is_ref(e, a) && is_ref(e, b) implies a == b by {
        if a != b {
            assert(e.len() >= 4);
            assert(e[1] == 'a' || e[1] == 'l' || e[1] == 'g' || e[1] == 'q' || e[1] == '#');
            assert(e[2] == e[2] && e[3] == e[3]);
        }
    }
}
// lossless: a reader gets the original text back
pub proof fn lemma_enc_decodes(out: Seq<char>, s: Seq<char>, d: Set<char>, b: Seq<char>)
    requires enc(out, s, d), d.contains('&'), d.subset_of(all5())
    ensures decode(out + b) == s + decode(b) decreases s.len()
{
    reveal_with_fuel(enc, 2);
    if s.len() == 0 { assert(out + b =~= b); assert(s + decode(b) =~= decode(b)); }
    else {
        let k = split(out, s, d);
        lemma_decode_chunk(out.skip(k), s.last(), d, b);
        lemma_enc_decodes(out.take(k), s.drop_last(), d, out.skip(k) + b);
        assert(out.take(k) + (out.skip(k) + b) =~= out + b);
        assert(s.drop_last() + (seq![s.last()] + decode(b)) =~= s + decode(b));
    }
}
pub proof fn lemma_ref_chars(e: Seq<char>, c: char)
    requires is_ref(e, c)
    ensures e[0] == '&', forall|i: int| 1 <= i < e.len() ==> !special(#[trigger] e[i]), 4 <= e.len() <= 6
{}
// complete: none of the characters in d is left raw, except that a reference starts with '&'
pub proof fn lemma_enc_safe(out: Seq<char>, s: Seq<char>, d: Set<char>)
    requires enc(out, s, d), d.contains('&'), d.subset_of(all5())
    ensures forall|i: int| 0 <= i < out.len() && d.contains(#[trigger] out[i]) ==> out[i] == '&',
            forall|i: int| 0 <= i < out.len() && #[trigger] out[i] == '&' ==> (exists|n: int| 4 <= n <= 6 && i + n <= out.len() && (exists|c: char| #[trigger] is_ref(#[trigger] out.subrange(i, i + n), c)))
    decreases s.len()
{
    reveal_with_fuel(enc, 2);
    if s.len() > 0 {
        let k = split(out, s, d);
        lemma_enc_safe(out.take(k), s.drop_last(), d);
        let e = out.skip(k); let h = out.take(k); let c = s.last();
        assert forall|i: int| 0 <= i < out.len() && d.contains(#[trigger] out[i]) implies out[i] == '&' by {
            if i < k { assert(h[i] == out[i]); } else { assert(e[i - k] == out[i]); if d.contains(c) { lemma_ref_chars(e, c); assert(!special(e[i - k]) || e[i - k] == '&'); assert(special(out[i])); } else { assert(i == k); assert(out[i] == c); } }
        }
        assert forall|i: int| 0 <= i < out.len() && #[trigger] out[i] == '&' implies (exists|n: int| 4 <= n <= 6 && i + n <= out.len() && (exists|c: char| #[trigger] is_ref(#[trigger] out.subrange(i, i + n), c))) by {
            if i < k {
                assert(h[i] == '&');
                let n = choose|n: int| 4 <= n <= 6 && i + n <= h.len() && (exists|c: char| #[trigger] is_ref(#[trigger] h.subrange(i, i + n), c));
                assert(h.subrange(i, i + n) =~= out.subrange(i, i + n));
            } else {
                assert(e[i - k] == '&');
                if !d.contains(c) { assert(e.len() == 1); assert(i == k); assert(e[0] == '&'); assert(c == '&'); }
                assert(d.contains(c)); lemma_ref_chars(e, c);
                assert(i == k);
                let n = e.len() as int;
                assert(out.subrange(i, i + n) =~= e);
                assert(is_ref(out.subrange(i, i + n), c));
            }
        }
    }
}
} // verus!
