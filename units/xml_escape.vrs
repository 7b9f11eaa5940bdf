//@include prelude.rs
//@opt forpath
//@include esc.inc
verus! {
pub proof fn reveal_refs()
    ensures "&amp;"@ == seq!['&','a','m','p',';'], "&lt;"@ == seq!['&','l','t',';'], "&gt;"@ == seq!['&','g','t',';'], "&quot;"@ == seq!['&','q','u','o','t',';'], "&apos;"@ == seq!['&','a','p','o','s',';'],
        "&#38;"@ == seq!['&','#','3','8',';'], "&#60;"@ == seq!['&','#','6','0',';'], "&#62;"@ == seq!['&','#','6','2',';'], "&#34;"@ == seq!['&','#','3','4',';'], "&#39;"@ == seq!['&','#','3','9',';'],
{
    reveal_strlit("&amp;"); reveal_strlit("&lt;"); reveal_strlit("&gt;"); reveal_strlit("&quot;"); reveal_strlit("&apos;");
    reveal_strlit("&#38;"); reveal_strlit("&#60;"); reveal_strlit("&#62;"); reveal_strlit("&#34;"); reveal_strlit("&#39;");
    assert("&amp;"@ =~= seq!['&','a','m','p',';']); assert("&lt;"@ =~= seq!['&','l','t',';']); assert("&gt;"@ =~= seq!['&','g','t',';']);
    assert("&quot;"@ =~= seq!['&','q','u','o','t',';']); assert("&apos;"@ =~= seq!['&','a','p','o','s',';']);
    assert("&#38;"@ =~= seq!['&','#','3','8',';']); assert("&#60;"@ =~= seq!['&','#','6','0',';']); assert("&#62;"@ =~= seq!['&','#','6','2',';']);
    assert("&#34;"@ =~= seq!['&','#','3','4',';']); assert("&#39;"@ =~= seq!['&','#','3','9',';']);
}
pub proof fn enc_start(s: Seq<char>) ensures enc(s, s, Set::empty()) { lemma_enc_id(s, Set::empty()); }
pub proof fn enc_none(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> !special(#[trigger] s[i])
    ensures enc(s, s, all5()), escaped(s, s)
{
    lemma_enc_id(s, all5());
}

pub struct CorePropertiesPart;
//@fn core/xml_utils.rs|escape_xml
//@ ensures: escaped(vx_ret@, s@)
//@ begin: proof { reveal_refs(); }
//@ loop 0 inv: !vx_r0 ==> forall|j: int| 0 <= j < vx_i0 ==> (#[trigger] vx_s0@[j] != 0x26u8 && vx_s0@[j] != 0x3Cu8 && vx_s0@[j] != 0x3Eu8 && vx_s0@[j] != 0x22u8 && vx_s0@[j] != 0x27u8)
//@ loop 0 post: proof { if !vx_r0 { lemma_no_special(s@, vx_s0@); enc_none(s@); } }
//@ loop 1 inv: enc(out@, s@.take(vx_i1 as int), all5()), vx_s1@ == s@
//@ loop 1 pre: proof { assert(s@.take(0) =~= Seq::<char>::empty()); lemma_enc_empty(all5()); reveal_refs(); }
//@ loop 1 begin: let ghost vx_o = out@; proof { reveal_refs(); }
//@ loop 1 end: proof { lemma_step(vx_o, out@, s@, vx_i1 as int - 1); }
//@ loop 1 post: proof { assert(s@.take(s@.len() as int) =~= s@); }
//@end
//@fn core/xml_utils.rs|append_escape_xml
//@ ensures: exists|e: Seq<char>| #[trigger] escaped(e, s@) && final(buf)@ == old(buf)@ + e
//@ begin: let ghost vx_b = buf@; proof { reveal_refs(); }
//@ loop 0 inv: buf@ == vx_b, !vx_r0 ==> forall|j: int| 0 <= j < vx_i0 ==> (#[trigger] vx_s0@[j] != 0x26u8 && vx_s0@[j] != 0x3Cu8 && vx_s0@[j] != 0x3Eu8 && vx_s0@[j] != 0x22u8 && vx_s0@[j] != 0x27u8)
//@ loop 0 post: proof { if !vx_r0 { lemma_no_special(s@, vx_s0@); enc_none(s@); } }
//@ loop 1 inv: vx_b.len() <= buf@.len(), vx_b == old(buf)@, buf@.take(vx_b.len() as int) == vx_b, enc(buf@.skip(vx_b.len() as int), s@.take(vx_i1 as int), all5()), vx_s1@ == s@
//@ loop 1 pre: proof { assert(s@.take(0) =~= Seq::<char>::empty()); lemma_enc_empty(all5()); assert(buf@.skip(vx_b.len() as int) =~= Seq::<char>::empty()); assert(buf@.take(vx_b.len() as int) =~= vx_b); reveal_refs(); }
//@ loop 1 begin: let ghost vx_o = buf@; proof { reveal_refs(); }
//@ loop 1 end: proof {
//@   assert(buf@.take(vx_b.len() as int) =~= vx_o.take(vx_b.len() as int));
//@   assert(buf@.skip(vx_b.len() as int).skip(vx_o.len() - vx_b.len()) =~= buf@.skip(vx_o.len() as int));
//@   assert(buf@.skip(vx_b.len() as int).take(vx_o.len() - vx_b.len()) =~= vx_o.skip(vx_b.len() as int));
//@   lemma_step(vx_o.skip(vx_b.len() as int), buf@.skip(vx_b.len() as int), s@, vx_i1 as int - 1); }
//@ loop 1 post: proof { assert(s@.take(s@.len() as int) =~= s@); assert(vx_b + buf@.skip(vx_b.len() as int) =~= buf@); assert(escaped(buf@.skip(vx_b.len() as int), s@)); }
//@end

pub proof fn lemma_no_special(s: Seq<char>, b: Seq<u8>)
    requires ascii_bytes(s, b), forall|j: int| 0 <= j < b.len() ==> (#[trigger] b[j] != 0x26u8 && b[j] != 0x3Cu8 && b[j] != 0x3Eu8 && b[j] != 0x22u8 && b[j] != 0x27u8)
    ensures forall|i: int| 0 <= i < s.len() ==> !special(#[trigger] s[i])
{
    assert forall|i: int| 0 <= i < s.len() implies !special(#[trigger] s[i]) by {
        if special(s[i]) { let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j] as int == s[i] as int; assert(b[j] as int == s[i] as int); }
    }
}
pub proof fn lemma_step(o: Seq<char>, n: Seq<char>, s: Seq<char>, i: int)
    requires 0 <= i < s.len(), o.len() <= n.len(), (forall|j: int| 0 <= j < o.len() ==> #[trigger] n[j] == o[j]), enc(o, s.take(i), all5()), chunk(n.skip(o.len() as int), s[i], all5())
    ensures enc(n, s.take(i + 1), all5())
{
    lemma_enc_push(o, s.take(i), all5(), n.skip(o.len() as int), s[i]);
    assert(o + n.skip(o.len() as int) =~= n);
    assert(s.take(i).push(s[i]) =~= s.take(i + 1));
}
//@fn generator/slide_content/embedded_fonts.rs|xml_escape
//@ rename: embedded_fonts_esc
//@ optional: yes
//@ ensures: escaped(vx_ret@, s@)
//@ begin: broadcast use lemma_rep_step; proof { reveal_refs(); enc_start(s@); }
//@end
//@fn generator/slide_content/digital_signature.rs|xml_escape
//@ rename: digital_signature_esc
//@ optional: yes
//@ ensures: escaped(vx_ret@, s@)
//@ begin: broadcast use lemma_rep_step; proof { reveal_refs(); enc_start(s@); }
//@end
//@fn generator/slide_content/print_settings.rs|xml_escape
//@ rename: print_settings_esc
//@ optional: yes
//@ ensures: escaped(vx_ret@, s@)
//@ begin: broadcast use lemma_rep_step; proof { reveal_refs(); enc_start(s@); }
//@end
//@fn generator/slide_content/sections.rs|xml_escape
//@ rename: sections_esc
//@ optional: yes
//@ ensures: escaped(vx_ret@, s@)
//@ begin: broadcast use lemma_rep_step; proof { reveal_refs(); enc_start(s@); }
//@end
//@fn generator/slide_content/comments.rs|xml_escape
//@ rename: comments_esc
//@ optional: yes
//@ ensures: escaped(vx_ret@, s@)
//@ begin: broadcast use lemma_rep_step; proof { reveal_refs(); enc_start(s@); }
//@end
//@fn parts/coreprops.rs|CorePropertiesPart::escape_xml
//@ rename: coreprops_esc
//@ optional: yes
//@ ensures: escaped(vx_ret@, s@)
//@ begin: broadcast use lemma_rep_step; proof { reveal_refs(); enc_start(s@); }
//@end
//@fn export/html.rs|escape_html
//@ rename: html_esc
//@ optional: yes
//@ ensures: escaped(vx_ret@, text@)
//@ begin: broadcast use lemma_rep_step; proof { reveal_refs(); enc_start(text@); }
//@end
//@fn generator/presentation_theme.rs|escape_xml_attr
//@ rename: presentation_theme_esc
//@ optional: yes
//@ ensures: escaped_attr(vx_ret@, s@)
//@ begin: broadcast use lemma_rep_step; proof { reveal_refs(); enc_start(s@); }
//@end
//@fn generator/props_xml.rs|xml_escape
//@ rename: props_esc
//@ optional: yes
//@ ensures: escaped(vx_ret@, s@)
//@ begin: proof { reveal_refs(); }
//@ loop 0 inv: enc(out@, s@.take(vx_i0 as int), all5()), vx_s0@ == s@
//@ loop 0 pre: proof { assert(s@.take(0) =~= Seq::<char>::empty()); lemma_enc_empty(all5()); reveal_refs(); }
//@ loop 0 begin: let ghost vx_o = out@; proof { reveal_refs(); }
//@ loop 0 end: proof { lemma_step(vx_o, out@, s@, vx_i0 as int - 1); }
//@ loop 0 post: proof { assert(s@.take(s@.len() as int) =~= s@); }
//@end

// ---- the writer ------------------------------------------------------------------------------
//@type XmlWriter
// ` k="v"` for the first n attributes, v being the given values
pub open spec fn attrs_cat(attrs: Seq<(&str, &str)>, vals: Seq<Seq<char>>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::<char>::empty() } else {
        attrs_cat(attrs, vals, n - 1) + seq![' '] + attrs[n - 1].0@ + seq!['=', '"'] + vals[n - 1] + seq!['"']
    }
}
pub open spec fn vals_ok(attrs: Seq<(&str, &str)>, vals: Seq<Seq<char>>, n: int) -> bool {
    vals.len() == n && forall|i: int| 0 <= i < n ==> escaped(#[trigger] vals[i], attrs[i].1@)
}
pub open spec fn tag_open(n: Seq<char>, o: Seq<char>, name: Seq<char>, attrs: Seq<(&str, &str)>, close: Seq<char>) -> bool {
    exists|vals: Seq<Seq<char>>| #[trigger] vals_ok(attrs, vals, attrs.len() as int) && n =~= o + seq!['<'] + name + attrs_cat(attrs, vals, attrs.len() as int) + close
}
pub proof fn lemma_cat_ext(attrs: Seq<(&str, &str)>, a: Seq<Seq<char>>, b: Seq<Seq<char>>, n: int)
    requires forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures attrs_cat(attrs, a, n) == attrs_cat(attrs, b, n) decreases n
{ if n > 0 { lemma_cat_ext(attrs, a, b, n - 1); } }
pub proof fn lemma_attr_step(b0: Seq<char>, n: Seq<char>, attrs: Seq<(&str, &str)>, vals: Seq<Seq<char>>, i: int, e: Seq<char>, head: Seq<char>)
    requires 0 <= i < attrs.len(), vals_ok(attrs, vals, i), escaped(e, attrs[i].1@), b0 == head + attrs_cat(attrs, vals, i),
        n =~= b0 + seq![' '] + attrs[i].0@ + seq!['=', '"'] + e + seq!['"']
    ensures vals_ok(attrs, vals.push(e), i + 1), n == head + attrs_cat(attrs, vals.push(e), i + 1)
{
    lemma_cat_ext(attrs, vals, vals.push(e), i);
    let v = vals.push(e);
    assert forall|j: int| 0 <= j < i + 1 implies escaped(#[trigger] v[j], attrs[j].1@) by { if j < i { assert(v[j] == vals[j]); } }
    assert(attrs_cat(attrs, v, i + 1) == attrs_cat(attrs, v, i) + seq![' '] + attrs[i].0@ + seq!['=', '"'] + e + seq!['"']);
    assert(n =~= head + attrs_cat(attrs, v, i + 1));
}
pub proof fn reveal_w() ensures "=\""@ == seq!['=', '"'], "</"@ == seq!['<', '/'], "/>"@ == seq!['/', '>'] {
    reveal_strlit("=\""); reveal_strlit("</"); reveal_strlit("/>");
    assert("=\""@ =~= seq!['=', '"']); assert("</"@ =~= seq!['<', '/']); assert("/>"@ =~= seq!['/', '>']);
}
//@fn XmlWriter::new
//@ ensures: vx_ret.buffer@.len() == 0
//@end
//@fn XmlWriter::text
//@ ensures: exists|e: Seq<char>| #[trigger] escaped(e, content@) && vx_ret.buffer@ == old(self).buffer@ + e, final(self).buffer@ == final(vx_ret).buffer@
//@end
//@fn XmlWriter::raw
//@ ensures: vx_ret.buffer@ == old(self).buffer@ + xml@, final(self).buffer@ == final(vx_ret).buffer@
//@end
//@fn XmlWriter::end_element
//@ ensures: vx_ret.buffer@ =~= old(self).buffer@ + seq!['<', '/'] + name@ + seq!['>'], final(self).buffer@ == final(vx_ret).buffer@
//@ begin: proof { reveal_w(); }
//@end
//@fn XmlWriter::start_element
//@ ensures: tag_open(vx_ret.buffer@, old(self).buffer@, name@, attrs@, seq!['>']), final(self).buffer@ == final(vx_ret).buffer@
//@ begin: let ghost vx_b0 = self.buffer@; let ghost mut vx_vals: Seq<Seq<char>> = Seq::empty(); proof { reveal_w(); }
//@ loop 0 pre: proof { assert(self.buffer@ =~= vx_b0 + seq!['<'] + name@ + attrs_cat(attrs@, vx_vals, 0)); }
//@ loop 0 inv: vx_s0@ == attrs@, vals_ok(attrs@, vx_vals, vx_i0 as int), self.buffer@ == (vx_b0 + seq!['<'] + name@) + attrs_cat(attrs@, vx_vals, vx_i0 as int)
//@ loop 0 begin: let ghost vx_o = self.buffer@; let ghost vx_k = vx_i0 as int; proof { reveal_w(); }
//@ loop 0 end: proof { let e = choose|e: Seq<char>| #[trigger] escaped(e, attrs@[vx_k].1@) && self.buffer@ =~= vx_o + seq![' '] + attrs@[vx_k].0@ + seq!['=', '"'] + e + seq!['"']; lemma_attr_step(vx_o, self.buffer@, attrs@, vx_vals, vx_k, e, vx_b0 + seq!['<'] + name@); vx_vals = vx_vals.push(e); }
//@end
//@fn XmlWriter::empty_element
//@ ensures: tag_open(vx_ret.buffer@, old(self).buffer@, name@, attrs@, seq!['/', '>']), final(self).buffer@ == final(vx_ret).buffer@
//@ begin: let ghost vx_b0 = self.buffer@; let ghost mut vx_vals: Seq<Seq<char>> = Seq::empty(); proof { reveal_w(); }
//@ loop 0 pre: proof { assert(self.buffer@ =~= vx_b0 + seq!['<'] + name@ + attrs_cat(attrs@, vx_vals, 0)); }
//@ loop 0 inv: vx_s0@ == attrs@, vals_ok(attrs@, vx_vals, vx_i0 as int), self.buffer@ == (vx_b0 + seq!['<'] + name@) + attrs_cat(attrs@, vx_vals, vx_i0 as int)
//@ loop 0 begin: let ghost vx_o = self.buffer@; let ghost vx_k = vx_i0 as int; proof { reveal_w(); }
//@ loop 0 end: proof { let e = choose|e: Seq<char>| #[trigger] escaped(e, attrs@[vx_k].1@) && self.buffer@ =~= vx_o + seq![' '] + attrs@[vx_k].0@ + seq!['=', '"'] + e + seq!['"']; lemma_attr_step(vx_o, self.buffer@, attrs@, vx_vals, vx_k, e, vx_b0 + seq!['<'] + name@); vx_vals = vx_vals.push(e); }
//@end
//@fn XmlWriter::finish
//@ ensures: vx_ret@ == self.buffer@
//@end
// the property: a reader gets the caller's text back, and no markup character of the text is left raw
pub proof fn lemma_escaped_lossless(out: Seq<char>, s: Seq<char>)
    requires escaped(out, s) || escaped_attr(out, s)
    ensures decode(out) == s, forall|i: int| 0 <= i < out.len() ==> #[trigger] out[i] != '<' && out[i] != '"',
        escaped(out, s) ==> forall|i: int| 0 <= i < out.len() ==> #[trigger] out[i] != '>' && out[i] != '\'',
        forall|i: int| 0 <= i < out.len() && #[trigger] out[i] == '&' ==> (exists|n: int| 4 <= n <= 6 && i + n <= out.len() && (exists|c: char| #[trigger] is_ref(#[trigger] out.subrange(i, i + n), c)))
{
    let d = choose|d: Set<char>| #[trigger] enc(out, s, d) && d.contains('&') && d.contains('<') && d.contains('"') && d.subset_of(all5()) && (escaped(out, s) ==> all5().subset_of(d));
    if escaped(out, s) {
        let d2 = choose|d: Set<char>| #[trigger] enc(out, s, d) && all5().subset_of(d) && d.subset_of(all5());
        assert(d2.contains('&') && d2.contains('<') && d2.contains('"') && d2.contains('>') && d2.contains('\''));
    }
    assert(enc(out, s, d) && d.contains('&') && d.contains('<') && d.contains('"') && d.subset_of(all5()));
    lemma_enc_decodes(out, s, d, Seq::empty());
    lemma_enc_safe(out, s, d);
    assert(out + Seq::<char>::empty() =~= out);
    assert(s + decode(Seq::<char>::empty()) =~= s);
}
//%extras
} // verus!
fn main() {}
