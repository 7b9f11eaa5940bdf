//@include esc.inc
verus! {
// ---- what an XML reader makes of a text: where it stands and which elements are open ------------
mod vx_xm { use vstd::prelude::*; verus! {
pub enum Stk { Nil, Cons(Seq<char>, Box<Stk>) }
// text, start of a tag, name, between attributes, attribute name, after '=', value, after '/', end tag, instruction, comment, references, lost
pub enum M { T, O, N, A, B, Q, V, S, E, I, C, RT, RV, X }
pub struct St { pub m: M, pub n: Seq<char>, pub k: Stk }
pub open spec fn cons(h: Seq<char>, k: Stk) -> Stk { Stk::Cons(h, Box::new(k)) }
pub open spec fn tail(k: Stk) -> Stk { match k { Stk::Cons(_, t) => *t, Stk::Nil => k } }
pub open spec fn st(m: M, k: Stk) -> St { St { m, n: Seq::empty(), k } }
pub open spec fn nm(m: M, n: Seq<char>, k: Stk) -> St { St { m, n, k } }
pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\n' || c == '\t' || c == '\r' }
pub open spec fn in_ref(c: char) -> bool { c == '#' || c == 'a' || c == 'm' || c == 'p' || c == 'l' || c == 't' || c == 'g' || c == 'q' || c == 'u' || c == 'o' || c == 's' || c == '0' || c == '1' || c == '2' || c == '3' || c == '4' || c == '5' || c == '6' || c == '7' || c == '8' || c == '9' }
pub open spec fn step(z: St, c: char) -> St {
    match z.m {
        M::T => if c == '<' { st(M::O, z.k) } else if c == '&' { st(M::RT, z.k) } else { z },
        M::O => if c == '/' { st(M::E, z.k) } else if c == '?' { st(M::I, z.k) } else if c == '!' { st(M::C, z.k) } else if blank(c) || c == '<' || c == '>' || c == '"' || c == '&' { st(M::X, z.k) } else { nm(M::N, Seq::empty().push(c), z.k) },
        M::N => if c == '>' { st(M::T, cons(z.n, z.k)) } else if c == '/' { st(M::S, cons(z.n, z.k)) } else if blank(c) { st(M::A, cons(z.n, z.k)) } else if c == '<' || c == '"' || c == '&' || c == '=' { st(M::X, z.k) } else { nm(M::N, z.n.push(c), z.k) },
        M::A => if c == '>' { st(M::T, z.k) } else if c == '/' { st(M::S, z.k) } else if blank(c) { z } else if c == '<' || c == '"' || c == '&' || c == '=' { st(M::X, z.k) } else { st(M::B, z.k) },
        M::B => if c == '=' { st(M::Q, z.k) } else if c == '<' || c == '"' || c == '&' || c == '>' || c == '/' || blank(c) { st(M::X, z.k) } else { z },
        M::Q => if c == '"' { st(M::V, z.k) } else { st(M::X, z.k) },
        M::V => if c == '"' { st(M::A, z.k) } else if c == '<' { st(M::X, z.k) } else if c == '&' { st(M::RV, z.k) } else { z },
        M::S => match z.k { Stk::Cons(_, t) => if c == '>' { st(M::T, *t) } else { st(M::X, z.k) }, Stk::Nil => st(M::X, z.k) },
        M::E => if c == '<' { st(M::X, z.k) } else if c == '>' { match z.k { Stk::Cons(h, t) => if h == z.n { st(M::T, *t) } else { st(M::X, z.k) }, Stk::Nil => st(M::X, z.k) } } else { nm(M::E, z.n.push(c), z.k) },
        M::I => if c == '>' { st(M::T, z.k) } else if c == '<' { st(M::X, z.k) } else { z },
        M::C => if c == '>' { st(M::T, z.k) } else if c == '<' { st(M::X, z.k) } else { z },
        M::RT => if c == ';' { st(M::T, z.k) } else if in_ref(c) { z } else { st(M::X, z.k) },
        M::RV => if c == ';' { st(M::V, z.k) } else if in_ref(c) { z } else { st(M::X, z.k) },
        M::X => z,
    }
}
pub open spec fn go(z: St, s: Seq<char>, i: nat) -> St decreases s.len() - i { if i < s.len() { go(step(z, s[i as int]), s, i + 1) } else { z } }
#[verifier::opaque]
pub open spec fn run(z: St, s: Seq<char>) -> St { go(z, s, 0) }
pub proof fn lemma_go(z: St, a: Seq<char>, b: Seq<char>, i: nat) requires i <= a.len() ensures go(z, a + b, i) == go(go(z, a, i), b, 0) decreases a.len() - i {
    if i < a.len() { assert((a + b)[i as int] == a[i as int]); lemma_go(step(z, a[i as int]), a, b, i + 1); } else { lemma_go_tail(z, a, b, 0); }
}
pub proof fn lemma_go_tail(z: St, a: Seq<char>, b: Seq<char>, j: nat) requires j <= b.len() ensures go(z, a + b, a.len() + j) == go(z, b, j) decreases b.len() - j {
    if j < b.len() { assert((a + b)[(a.len() + j) as int] == b[j as int]); lemma_go_tail(step(z, b[j as int]), a, b, j + 1); }
}
pub broadcast proof fn lemma_run_add(z: St, a: Seq<char>, b: Seq<char>) ensures #[trigger] run(z, a + b) == run(run(z, a), b) { reveal(run); lemma_go(z, a, b, 0); }
pub broadcast proof fn lemma_run_empty(z: St, s: Seq<char>) requires s.len() == 0 ensures #[trigger] run(z, s) == z { reveal(run); }
pub broadcast proof fn lemma_run_push(z: St, a: Seq<char>, c: char) ensures #[trigger] run(z, a.push(c)) == step(run(z, a), c) { assert(a.push(c) =~= a + seq![c]); lemma_run_add(z, a, seq![c]); reveal(run); reveal_with_fuel(go, 3); }
// element content; attributes; harmless in text and in values
pub open spec fn closed(s: Seq<char>) -> bool { forall|k: Stk| #[trigger] run(st(M::T, k), s) == st(M::T, k) }
pub open spec fn attrs(s: Seq<char>) -> bool { forall|k: Stk| #[trigger] run(st(M::A, k), s) == st(M::A, k) }
pub open spec fn calm_value(s: Seq<char>) -> bool { forall|k: Stk| #[trigger] run(st(M::V, k), s) == st(M::V, k) }
pub open spec fn inert(s: Seq<char>) -> bool { closed(s) && calm_value(s) }
// a part of a tag's name
#[verifier::opaque] pub open spec fn namey(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !blank(#[trigger] s[i]) && s[i] != '<' && s[i] != '>' && s[i] != '"' && s[i] != '&' && s[i] != '/' && s[i] != '=' }
pub broadcast proof fn lemma_namey(s: Seq<char>, m: M, n: Seq<char>, k: Stk) requires namey(s), m is N || m is E ensures #[trigger] run(nm(m, n, k), s) == nm(m, n + s, k) decreases s.len() {
    reveal(namey);
    if s.len() == 0 { lemma_run_empty(nm(m, n, k), s); assert(n + s =~= n); } else {
        let t = s.drop_last();
        assert(t.push(s.last()) =~= s);
        assert forall|i: int| 0 <= i < t.len() implies t[i] == s[i] by {}
        assert(namey(t)) by { assert forall|i: int| 0 <= i < t.len() implies !blank(#[trigger] t[i]) && t[i] != '<' && t[i] != '>' && t[i] != '"' && t[i] != '&' && t[i] != '/' && t[i] != '=' by { assert(t[i] == s[i]); } }
        lemma_namey(t, m, n, k);
        lemma_run_push(nm(m, n, k), t, s.last());
        assert((n + t).push(s.last()) =~= n + s);
        let c = s[s.len() - 1];
    }
}
pub open spec fn calm(c: char) -> bool { c != '<' && c != '"' && c != '&' }
pub proof fn lemma_calm(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> calm(#[trigger] s[i]) ensures inert(s) decreases s.len() {
    assert forall|k: Stk| #[trigger] run(st(M::T, k), s) == st(M::T, k) by { lemma_calm_from(s, k); }
    assert forall|k: Stk| #[trigger] run(st(M::V, k), s) == st(M::V, k) by { lemma_calm_from(s, k); }
}
pub proof fn lemma_calm_from(s: Seq<char>, k: Stk) requires forall|i: int| 0 <= i < s.len() ==> calm(#[trigger] s[i]) ensures run(st(M::T, k), s) == st(M::T, k), run(st(M::V, k), s) == st(M::V, k) decreases s.len() {
    if s.len() == 0 { lemma_run_empty(st(M::T, k), s); lemma_run_empty(st(M::V, k), s); } else {
        let t = s.drop_last(); assert(t.push(s.last()) =~= s);
        assert forall|i: int| 0 <= i < t.len() implies calm(#[trigger] t[i]) by { assert(t[i] == s[i]); }
        lemma_calm_from(t, k); lemma_run_push(st(M::T, k), t, s.last()); lemma_run_push(st(M::V, k), t, s.last()); assert(calm(s[s.len() - 1]));
    }
}
// two harmless texts one after the other
pub broadcast proof fn lemma_inert_add(a: Seq<char>, b: Seq<char>) requires inert(a), inert(b) ensures #[trigger] inert(a + b) {
    broadcast use lemma_run_add;
}
// what is added to a text is complete: element content; attributes
pub open spec fn same(a: Seq<char>, b: Seq<char>) -> bool { forall|z: St| run(z, a) == st(M::T, run(z, a).k) ==> #[trigger] run(z, b) == run(z, a) }
pub open spec fn samea(a: Seq<char>, b: Seq<char>) -> bool { forall|z: St| {
    &&& run(z, a) == st(M::A, run(z, a).k) ==> #[trigger] run(z, b) == run(z, a)
    &&& run(z, a) == nm(M::N, run(z, a).n, run(z, a).k) ==> run(z, b) == run(z, a) || run(z, b) == st(M::A, cons(run(z, a).n, run(z, a).k)) } }
// the name that starts a tag
pub open spec fn namey1(s: Seq<char>) -> bool { namey(s) && s.len() > 0 && s[0] != '?' && s[0] != '!' }
pub broadcast proof fn lemma_namey1(s: Seq<char>, k: Stk) requires #[trigger] namey1(s) ensures #[trigger] run(st(M::O, k), s) == nm(M::N, s, k) {
    reveal(namey);
    let a = seq![s[0]]; let b = s.skip(1);
    assert(a + b =~= s);
    lemma_run_add(st(M::O, k), a, b);
    lemma_run_empty(st(M::O, k), Seq::empty()); lemma_run_push(st(M::O, k), Seq::empty(), s[0]);
    assert(Seq::<char>::empty().push(s[0]) =~= a);
    assert(namey(b)) by { assert forall|i: int| 0 <= i < b.len() implies !blank(#[trigger] b[i]) && b[i] != '<' && b[i] != '>' && b[i] != '"' && b[i] != '&' && b[i] != '/' && b[i] != '=' by { assert(b[i] == s[i + 1]); } }
    assert(!blank(s[0]) && s[0] != '<');
    lemma_namey(b, M::N, Seq::empty().push(s[0]), k);
    assert(Seq::empty().push(s[0]) + b =~= s);
}
// an attribute's name
pub broadcast proof fn lemma_namey_attr(s: Seq<char>, k: Stk) requires #[trigger] namey(s), s.len() > 0 ensures #[trigger] run(st(M::A, k), s) == st(M::B, k) decreases s.len() {
    reveal(namey);
    let t = s.drop_last();
    assert(t.push(s.last()) =~= s);
    let c = s[s.len() - 1];
    if t.len() == 0 { lemma_run_empty(st(M::A, k), t); } else {
        assert(namey(t)) by { assert forall|i: int| 0 <= i < t.len() implies !blank(#[trigger] t[i]) && t[i] != '<' && t[i] != '>' && t[i] != '"' && t[i] != '&' && t[i] != '/' && t[i] != '=' by { assert(t[i] == s[i]); } }
        lemma_namey_attr(t, k);
    }
    lemma_run_push(st(M::A, k), t, s.last());
}
// where a '<' can stand in a complete text: only in element content
pub proof fn lemma_lost(z: St, s: Seq<char>) requires z.m is X ensures run(z, s) == z decreases s.len() {
    if s.len() == 0 { lemma_run_empty(z, s); } else { let t = s.drop_last(); assert(t.push(s.last()) =~= s); lemma_lost(z, t); lemma_run_push(z, t, s.last()); }
}
pub proof fn lemma_plain(z: St, s: Seq<char>) requires z.m is T ==> z.n.len() == 0 ensures run(z, s).m is T ==> run(z, s).n.len() == 0 decreases s.len() {
    if s.len() == 0 { lemma_run_empty(z, s); } else { let t = s.drop_last(); assert(t.push(s.last()) =~= s); lemma_plain(z, t); lemma_run_push(z, t, s.last()); }
}
pub proof fn lemma_cut(a: Seq<char>, b: Seq<char>, k: Stk) requires closed(a + b), b.len() > 0, b[0] == '<' ensures run(st(M::T, k), a) == st(M::T, run(st(M::T, k), a).k) {
    let z = run(st(M::T, k), a);
    lemma_run_add(st(M::T, k), a, b);
    let b1 = seq![b[0]];
    assert(b1 + b.skip(1) =~= b);
    lemma_run_add(z, b1, b.skip(1));
    lemma_run_empty(z, Seq::empty()); lemma_run_push(z, Seq::empty(), b[0]);
    assert(Seq::<char>::empty().push(b[0]) =~= b1);
    assert(run(st(M::T, k), a + b) == st(M::T, k));
    if !(z.m is T) { lemma_lost(run(z, b1), b.skip(1)); }
    lemma_plain(st(M::T, k), a);
    assert(z.n =~= Seq::empty());
}
// element content put before a '<' of a complete text
pub proof fn lemma_insert(a: Seq<char>, t: Seq<char>, b: Seq<char>) requires closed(a + b), b.len() > 0, b[0] == '<', closed(t) ensures closed(a + t + b) {
    assert forall|k: Stk| #[trigger] run(st(M::T, k), a + t + b) == st(M::T, k) by {
        lemma_cut(a, b, k);
        lemma_run_add(st(M::T, k), a + t, b); lemma_run_add(st(M::T, k), a, t); lemma_run_add(st(M::T, k), a, b);
        let z = run(st(M::T, k), a);
        assert(run(st(M::T, z.k), t) == st(M::T, z.k));
        assert(run(st(M::T, k), a + b) == st(M::T, k));
    }
}
} }
use vx_xm::{Stk, M, St, cons, tail, st, nm, step, run, closed, attrs, inert, namey, namey1, same, samea};
mod vx_xv { use vstd::prelude::*; use crate::*; use crate::vx_xm::*; verus! {
broadcast use {lemma_run_add, lemma_run_empty, lemma_run_push, lemma_inert_add};
// numbers
pub broadcast proof fn lemma_inert_dec(n: nat) ensures inert(#[trigger] dec(n)) { lemma_dec_digits(n); assert forall|i: int| 0 <= i < dec(n).len() implies vx_xm::calm(#[trigger] dec(n)[i]) by { assert(is_dig(dec(n)[i])); } vx_xm::lemma_calm(dec(n)); }
pub broadcast proof fn lemma_inert_decint(n: int) ensures inert(#[trigger] decint(n)) { if n < 0 { vx_xm::lemma_calm(seq!['-']); lemma_inert_dec((-n) as nat); lemma_inert_dec(0); } else { lemma_inert_dec(n as nat); } }
pub broadcast axiom fn axiom_inert_f64(x: f64) ensures inert(#[trigger] f64disp(x));
pub broadcast axiom fn axiom_inert_f32(x: f32) ensures inert(#[trigger] f32disp(x));
// colours: hexadecimal digits, perhaps with a '#'
pub open spec fn hexc(c: char) -> bool { is_dig(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') || c == '#' }
#[verifier::opaque] pub open spec fn hexcol(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> hexc(#[trigger] s[i]) }
pub broadcast proof fn lemma_hexcol(s: Seq<char>) requires #[trigger] hexcol(s) ensures inert(s) { reveal(hexcol); assert forall|i: int| 0 <= i < s.len() implies vx_xm::calm(#[trigger] s[i]) by { assert(hexc(s[i])); } vx_xm::lemma_calm(s); }
// references
pub proof fn lemma_inert_ref(e: Seq<char>, c: char) requires is_ref(e, c) ensures inert(e) {
    { let r = seq!['&','a','m','p',';']; assert forall|k: Stk| #[trigger] run(st(M::T, k), r) == st(M::T, k) by { reveal(run); assert(run(st(M::T, k), seq!['&','a','m','p',';']) == st(M::T, k)) by (compute_only); } }
    { let r = seq!['&','a','m','p',';']; assert forall|k: Stk| #[trigger] run(st(M::V, k), r) == st(M::V, k) by { reveal(run); assert(run(st(M::V, k), seq!['&','a','m','p',';']) == st(M::V, k)) by (compute_only); } }
    { let r = seq!['&','#','3','8',';']; assert forall|k: Stk| #[trigger] run(st(M::T, k), r) == st(M::T, k) by { reveal(run); assert(run(st(M::T, k), seq!['&','#','3','8',';']) == st(M::T, k)) by (compute_only); } }
    { let r = seq!['&','#','3','8',';']; assert forall|k: Stk| #[trigger] run(st(M::V, k), r) == st(M::V, k) by { reveal(run); assert(run(st(M::V, k), seq!['&','#','3','8',';']) == st(M::V, k)) by (compute_only); } }
    { let r = seq!['&','l','t',';']; assert forall|k: Stk| #[trigger] run(st(M::T, k), r) == st(M::T, k) by { reveal(run); assert(run(st(M::T, k), seq!['&','l','t',';']) == st(M::T, k)) by (compute_only); } }
    { let r = seq!['&','l','t',';']; assert forall|k: Stk| #[trigger] run(st(M::V, k), r) == st(M::V, k) by { reveal(run); assert(run(st(M::V, k), seq!['&','l','t',';']) == st(M::V, k)) by (compute_only); } }
    { let r = seq!['&','#','6','0',';']; assert forall|k: Stk| #[trigger] run(st(M::T, k), r) == st(M::T, k) by { reveal(run); assert(run(st(M::T, k), seq!['&','#','6','0',';']) == st(M::T, k)) by (compute_only); } }
    { let r = seq!['&','#','6','0',';']; assert forall|k: Stk| #[trigger] run(st(M::V, k), r) == st(M::V, k) by { reveal(run); assert(run(st(M::V, k), seq!['&','#','6','0',';']) == st(M::V, k)) by (compute_only); } }
    { let r = seq!['&','g','t',';']; assert forall|k: Stk| #[trigger] run(st(M::T, k), r) == st(M::T, k) by { reveal(run); assert(run(st(M::T, k), seq!['&','g','t',';']) == st(M::T, k)) by (compute_only); } }
    { let r = seq!['&','g','t',';']; assert forall|k: Stk| #[trigger] run(st(M::V, k), r) == st(M::V, k) by { reveal(run); assert(run(st(M::V, k), seq!['&','g','t',';']) == st(M::V, k)) by (compute_only); } }
    { let r = seq!['&','#','6','2',';']; assert forall|k: Stk| #[trigger] run(st(M::T, k), r) == st(M::T, k) by { reveal(run); assert(run(st(M::T, k), seq!['&','#','6','2',';']) == st(M::T, k)) by (compute_only); } }
    { let r = seq!['&','#','6','2',';']; assert forall|k: Stk| #[trigger] run(st(M::V, k), r) == st(M::V, k) by { reveal(run); assert(run(st(M::V, k), seq!['&','#','6','2',';']) == st(M::V, k)) by (compute_only); } }
    { let r = seq!['&','q','u','o','t',';']; assert forall|k: Stk| #[trigger] run(st(M::T, k), r) == st(M::T, k) by { reveal(run); assert(run(st(M::T, k), seq!['&','q','u','o','t',';']) == st(M::T, k)) by (compute_only); } }
    { let r = seq!['&','q','u','o','t',';']; assert forall|k: Stk| #[trigger] run(st(M::V, k), r) == st(M::V, k) by { reveal(run); assert(run(st(M::V, k), seq!['&','q','u','o','t',';']) == st(M::V, k)) by (compute_only); } }
    { let r = seq!['&','#','3','4',';']; assert forall|k: Stk| #[trigger] run(st(M::T, k), r) == st(M::T, k) by { reveal(run); assert(run(st(M::T, k), seq!['&','#','3','4',';']) == st(M::T, k)) by (compute_only); } }
    { let r = seq!['&','#','3','4',';']; assert forall|k: Stk| #[trigger] run(st(M::V, k), r) == st(M::V, k) by { reveal(run); assert(run(st(M::V, k), seq!['&','#','3','4',';']) == st(M::V, k)) by (compute_only); } }
    { let r = seq!['&','a','p','o','s',';']; assert forall|k: Stk| #[trigger] run(st(M::T, k), r) == st(M::T, k) by { reveal(run); assert(run(st(M::T, k), seq!['&','a','p','o','s',';']) == st(M::T, k)) by (compute_only); } }
    { let r = seq!['&','a','p','o','s',';']; assert forall|k: Stk| #[trigger] run(st(M::V, k), r) == st(M::V, k) by { reveal(run); assert(run(st(M::V, k), seq!['&','a','p','o','s',';']) == st(M::V, k)) by (compute_only); } }
    { let r = seq!['&','#','3','9',';']; assert forall|k: Stk| #[trigger] run(st(M::T, k), r) == st(M::T, k) by { reveal(run); assert(run(st(M::T, k), seq!['&','#','3','9',';']) == st(M::T, k)) by (compute_only); } }
    { let r = seq!['&','#','3','9',';']; assert forall|k: Stk| #[trigger] run(st(M::V, k), r) == st(M::V, k) by { reveal(run); assert(run(st(M::V, k), seq!['&','#','3','9',';']) == st(M::V, k)) by (compute_only); } }
    assert((e.len() == 5 && e =~= seq!['&','a','m','p',';']) || (e.len() == 5 && e =~= seq!['&','#','3','8',';']) || (e.len() == 4 && e =~= seq!['&','l','t',';']) || (e.len() == 5 && e =~= seq!['&','#','6','0',';']) || (e.len() == 4 && e =~= seq!['&','g','t',';']) || (e.len() == 5 && e =~= seq!['&','#','6','2',';']) || (e.len() == 6 && e =~= seq!['&','q','u','o','t',';']) || (e.len() == 5 && e =~= seq!['&','#','3','4',';']) || (e.len() == 6 && e =~= seq!['&','a','p','o','s',';']) || (e.len() == 5 && e =~= seq!['&','#','3','9',';']));
}
pub proof fn lemma_inert_enc(out: Seq<char>, s: Seq<char>, d: Set<char>) requires enc(out, s, d), d.contains('&'), d.contains('<'), d.contains('"') ensures inert(out) decreases s.len() {
    if s.len() == 0 { reveal(enc); vx_xm::lemma_calm(out); } else {
        let k = split(out, s, d);
        lemma_inert_enc(out.take(k), s.drop_last(), d);
        let e = out.skip(k);
        if d.contains(s.last()) { lemma_inert_ref(e, s.last()); } else { assert(vx_xm::calm(e[0])); vx_xm::lemma_calm(e); }
        assert(out =~= out.take(k) + e);
    }
}
pub broadcast proof fn lemma_inert_escaped(out: Seq<char>, s: Seq<char>) requires #[trigger] escaped(out, s) ensures inert(out) { let d = choose|d: Set<char>| #[trigger] enc(out, s, d) && all5().subset_of(d) && d.subset_of(all5()); lemma_inert_enc(out, s, d); }
pub broadcast proof fn lemma_inert_escaped_attr(out: Seq<char>, s: Seq<char>) requires #[trigger] escaped_attr(out, s) ensures inert(out) { let d = choose|d: Set<char>| #[trigger] enc(out, s, d) && d.contains('&') && d.contains('<') && d.contains('"') && d.subset_of(all5()); lemma_inert_enc(out, s, d); }
} }
use vx_xv::{hexc, hexcol};
pub broadcast group xml_rules {vx_xv::lemma_hexcol, vx_xm::lemma_run_add, vx_xm::lemma_run_empty, vx_xm::lemma_run_push, vx_xm::lemma_inert_add, vx_xm::lemma_namey, vx_xm::lemma_namey1, vx_xm::lemma_namey_attr, vx_xv::lemma_inert_dec, vx_xv::lemma_inert_decint, vx_xv::axiom_inert_f64, vx_xv::axiom_inert_f32, vx_xv::lemma_inert_escaped, vx_xv::lemma_inert_escaped_attr, vx_x::effects}
// the arithmetic of floating point numbers: any result
pub trait VxFloat: Sized { fn vx_float_op(self, o: Self) -> Self; }
impl VxFloat for f64 { #[verifier::external_body] fn vx_float_op(self, o: f64) -> f64 { unimplemented!() } }
impl VxFloat for f32 { #[verifier::external_body] fn vx_float_op(self, o: f32) -> f32 { unimplemented!() } }
// does nothing, and forgets everything about a text but that what was added to it is complete
pub fn vx_hide(s: &mut String, Ghost(g): Ghost<Seq<char>>) requires same(g, old(s)@) ensures same(g, final(s)@) {}
// proved in unit xml_escape
#[verifier::external_body] pub fn escape_xml(s: &str) -> (r: String) ensures escaped(r@, s@) { unimplemented!() }
#[verifier::external_body] pub fn append_escape_xml(buf: &mut String, s: &str) ensures exists|e: Seq<char>| final(buf)@ == old(buf)@ + e && #[trigger] escaped(e, s@) { unimplemented!() }
pub open spec fn hexopt(s: Option<String>) -> bool { s is Some ==> hexcol(s->Some_0@) }
pub open spec fn hexoptr(s: Option<&str>) -> bool { s is Some ==> hexcol(s->Some_0@) }
pub trait VxColour { spec fn co(&self) -> Seq<char>;
    fn vx_trim_start_matches_c(&self, c: char) -> (r: &str) ensures hexcol(self.co()) ==> hexcol(r@);
    fn vx_to_uppercase(&self) -> (r: String) ensures hexcol(self.co()) ==> hexcol(r@); }
impl VxColour for str { open spec fn co(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_trim_start_matches_c(&self, c: char) -> (r: &str) { self.trim_start_matches(c) }
    #[verifier::external_body] fn vx_to_uppercase(&self) -> (r: String) { self.to_uppercase() } }
pub assume_specification [<usize>::div_ceil] (a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == (a + b - 1) / (b as int);
pub assume_specification [std::string::String::reserve] (s: &mut String, n: usize) ensures final(s)@ == old(s)@;
pub trait VxLines { fn vx_lines(&self) -> (r: Vec<&str>); }
impl VxLines for str { #[verifier::external_body] fn vx_lines(&self) -> (r: Vec<&str>) { self.lines().collect() } }
pub assume_specification [<i64>::unsigned_abs] (x: i64) -> (r: u64) ensures r == (if x < 0 { -x as int } else { x as int });
pub trait VxDeref { spec fn od(&self) -> Option<String>; fn vx_as_deref(&self) -> (r: Option<&str>) ensures (r is Some) == (self.od() is Some), r is Some ==> r->Some_0@ == self.od()->Some_0@; }
impl VxDeref for Option<String> { open spec fn od(&self) -> Option<String> { *self } #[verifier::external_body] fn vx_as_deref(&self) -> (r: Option<&str>) { self.as_deref() } }
global size_of usize == 8;
// a place in a text, in bytes of UTF-8
pub uninterp spec fn utf8(s: Seq<char>) -> nat;
pub open spec fn cut_at(s: Seq<char>, a: Seq<char>, b: Seq<char>, p: int) -> bool { s == a + b && utf8(a) == p }
// the place where a text ends
pub axiom fn axiom_utf8_empty(s: Seq<char>) ensures cut_at(s, s, Seq::empty(), utf8(s) as int);
pub open spec fn before(s: Seq<char>, p: int, t: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>| #[trigger] cut_at(s, a, b, p) && b.len() >= t.len() && b.take(t.len() as int) == t }
#[verifier::external_body] pub fn vx_put(s: &mut String, p: usize, t: &str) requires exists|a: Seq<char>, b: Seq<char>| #[trigger] cut_at(old(s)@, a, b, p as int) ensures forall|a: Seq<char>, b: Seq<char>| #[trigger] cut_at(old(s)@, a, b, p as int) ==> final(s)@ == a + t@ + b { s.insert_str(p, t) }
pub trait VxPlaces { spec fn pv(&self) -> Seq<char>;
    fn vx_rfind(&self, t: &str) -> (r: Option<usize>) ensures r is Some ==> before(self.pv(), r->Some_0 as int, t@);
    fn vx_insert_str(&mut self, p: usize, t: &str) requires exists|a: Seq<char>, b: Seq<char>| #[trigger] cut_at(old(self).pv(), a, b, p as int) ensures forall|x: Seq<char>| #[trigger] before(old(self).pv(), p as int, x) && x.len() > 0 && x[0] == '<' && closed(old(self).pv()) && closed(t@) ==> closed(final(self).pv()), p == utf8(old(self).pv()) && closed(old(self).pv()) && closed(t@) ==> closed(final(self).pv()); }
impl VxPlaces for String { open spec fn pv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_rfind(&self, t: &str) -> (r: Option<usize>) { self.rfind(t) }
    fn vx_insert_str(&mut self, p: usize, t: &str) { let ghost o = self@; vx_put(self, p, t);
        proof { assert forall|x: Seq<char>| #[trigger] before(o, p as int, x) && x.len() > 0 && x[0] == '<' && closed(o) && closed(t@) implies closed(self@) by {
            let (a, b) = choose|a: Seq<char>, b: Seq<char>| #[trigger] cut_at(o, a, b, p as int) && b.len() >= x.len() && b.take(x.len() as int) == x;
            assert(b[0] == b.take(x.len() as int)[0]); vx_xm::lemma_insert(a, t@, b); }
            if p == utf8(o) && closed(o) && closed(t@) { axiom_utf8_empty(o); assert(cut_at(o, o, Seq::empty(), p as int)); assert(self@ =~= o + t@); assert forall|k: Stk| #[trigger] run(st(M::T, k), self@) == st(M::T, k) by { vx_xm::lemma_run_add(st(M::T, k), o, t@); assert(run(st(M::T, k), o) == st(M::T, k)); assert(run(st(M::T, k), t@) == st(M::T, k)); } } } } }
// usize::from
pub trait VxUsize: Sized { spec fn us(&self) -> int; fn vx_usize(self) -> (r: usize) ensures r == self.us(); }
impl VxUsize for bool { open spec fn us(&self) -> int { if *self { 1 } else { 0 } } fn vx_usize(self) -> (r: usize) { if self { 1 } else { 0 } } }
impl VxUsize for u8 { open spec fn us(&self) -> int { *self as int } fn vx_usize(self) -> (r: usize) { self as usize } }
impl VxUsize for u16 { open spec fn us(&self) -> int { *self as int } fn vx_usize(self) -> (r: usize) { self as usize } }
pub open spec fn few<T>(v: Seq<T>) -> bool { v.len() < 0x100_0000 }
// numbers in a given width, as hexadecimal digits: harmless
pub trait VxDigits { 
    fn vx_fmt_08X(&self, o: &mut String) ensures exists|e: Seq<char>| final(o)@ == old(o)@ + e && #[trigger] inert(e);
    fn vx_fmt_04X(&self, o: &mut String) ensures exists|e: Seq<char>| final(o)@ == old(o)@ + e && #[trigger] inert(e);
    fn vx_fmt_012X(&self, o: &mut String) ensures exists|e: Seq<char>| final(o)@ == old(o)@ + e && #[trigger] inert(e);
    fn vx_fmt_04(&self, o: &mut String) ensures exists|e: Seq<char>| final(o)@ == old(o)@ + e && #[trigger] inert(e);
    fn vx_fmt_02(&self, o: &mut String) ensures exists|e: Seq<char>| final(o)@ == old(o)@ + e && #[trigger] inert(e); }
impl VxDigits for u16 {
    #[verifier::external_body] fn vx_fmt_08X(&self, o: &mut String) { o.push_str(&format!("{:08X}", self)) }
    #[verifier::external_body] fn vx_fmt_04X(&self, o: &mut String) { o.push_str(&format!("{:04X}", self)) }
    #[verifier::external_body] fn vx_fmt_012X(&self, o: &mut String) { o.push_str(&format!("{:012X}", self)) }
    #[verifier::external_body] fn vx_fmt_04(&self, o: &mut String) { o.push_str(&format!("{:04}", self)) }
    #[verifier::external_body] fn vx_fmt_02(&self, o: &mut String) { o.push_str(&format!("{:02}", self)) } }
impl VxDigits for u32 {
    #[verifier::external_body] fn vx_fmt_08X(&self, o: &mut String) { o.push_str(&format!("{:08X}", self)) }
    #[verifier::external_body] fn vx_fmt_04X(&self, o: &mut String) { o.push_str(&format!("{:04X}", self)) }
    #[verifier::external_body] fn vx_fmt_012X(&self, o: &mut String) { o.push_str(&format!("{:012X}", self)) }
    #[verifier::external_body] fn vx_fmt_04(&self, o: &mut String) { o.push_str(&format!("{:04}", self)) }
    #[verifier::external_body] fn vx_fmt_02(&self, o: &mut String) { o.push_str(&format!("{:02}", self)) } }
impl VxDigits for u64 {
    #[verifier::external_body] fn vx_fmt_08X(&self, o: &mut String) { o.push_str(&format!("{:08X}", self)) }
    #[verifier::external_body] fn vx_fmt_04X(&self, o: &mut String) { o.push_str(&format!("{:04X}", self)) }
    #[verifier::external_body] fn vx_fmt_012X(&self, o: &mut String) { o.push_str(&format!("{:012X}", self)) }
    #[verifier::external_body] fn vx_fmt_04(&self, o: &mut String) { o.push_str(&format!("{:04}", self)) }
    #[verifier::external_body] fn vx_fmt_02(&self, o: &mut String) { o.push_str(&format!("{:02}", self)) } }
impl VxDigits for usize {
    #[verifier::external_body] fn vx_fmt_08X(&self, o: &mut String) { o.push_str(&format!("{:08X}", self)) }
    #[verifier::external_body] fn vx_fmt_04X(&self, o: &mut String) { o.push_str(&format!("{:04X}", self)) }
    #[verifier::external_body] fn vx_fmt_012X(&self, o: &mut String) { o.push_str(&format!("{:012X}", self)) }
    #[verifier::external_body] fn vx_fmt_04(&self, o: &mut String) { o.push_str(&format!("{:04}", self)) }
    #[verifier::external_body] fn vx_fmt_02(&self, o: &mut String) { o.push_str(&format!("{:02}", self)) } }
pub trait VxFloatText: Sized { fn vx_abs(self) -> Self; fn vx_fmt__2e_0(&self, o: &mut String) ensures exists|e: Seq<char>| final(o)@ == old(o)@ + e && #[trigger] inert(e); }
impl VxFloatText for f32 { #[verifier::external_body] fn vx_abs(self) -> f32 { self.abs() } #[verifier::external_body] fn vx_fmt__2e_0(&self, o: &mut String) { o.push_str(&format!("{:.0}", self)) } }
impl VxFloatText for f64 { #[verifier::external_body] fn vx_abs(self) -> f64 { self.abs() } #[verifier::external_body] fn vx_fmt__2e_0(&self, o: &mut String) { o.push_str(&format!("{:.0}", self)) } }
// parts of a list
pub trait VxParts<T> { spec fn pa(&self) -> Seq<T>;
    fn vx_part_to(&self, n: usize) -> (r: &[T]) ensures r@ == self.pa().take(if n < self.pa().len() { n as int } else { self.pa().len() as int });
    fn vx_part_from(&self, n: usize) -> (r: &[T]) ensures r@ == self.pa().skip(if n < self.pa().len() { n as int } else { self.pa().len() as int }); }
impl<T> VxParts<T> for Vec<T> { open spec fn pa(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_part_to(&self, n: usize) -> (r: &[T]) { &self[..n.min(self.len())] }
    #[verifier::external_body] fn vx_part_from(&self, n: usize) -> (r: &[T]) { &self[n.min(self.len())..] } }
impl<T> VxParts<T> for [T] { open spec fn pa(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_part_to(&self, n: usize) -> (r: &[T]) { &self[..n.min(self.len())] }
    #[verifier::external_body] fn vx_part_from(&self, n: usize) -> (r: &[T]) { &self[n.min(self.len())..] } }
pub assume_specification [std::string::String::len] (s: &String) -> (r: usize) ensures r == utf8(s@), cut_at(s@, s@, Seq::empty(), r as int);
} // verus!
