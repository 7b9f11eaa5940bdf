//! Mechanical rewriting of function bodies into the subset Verus accepts.
//!
//! D1  attributes, doc comments, visibility: dropped
//! D2  paths `crate::..`, `super::..`, `self::..` shortened to their last segment(s)
//! D3  `format!`/`write!`/`.to_string()`-style formatting -> explicit pushes onto a String (vx_fmt*)
//! D4  `for p in &v | v.iter() | .iter().enumerate() | a..b | a..=b | s.chars() | s.bytes()` -> index `while`
//! D5  `.iter().any/all/find/position/filter..count/filter..collect/map..collect/copied/cloned` -> index `while`
//! D6  let-chains -> nested `if let`
//! D7  `match s { "lit" => .. }` on string literals -> if/else chain over vx_eq
//! D8  std methods without a vstd contract -> `vx_*` shims whose (assumed) contract is in units/prelude.rs
//! D9  calls of helper functions that have no contract -> inlined when they have no early return
//! D10 Option closures map/and_then/unwrap_or_else/... -> match
//! D13 `v.retain(p)`, `v.sort_by_key(k)`: the closure runs in an index `while`, the rearrangement is an assumed contract
//! D14 `String::from(s)` -> `s.to_string()`
//! D12 capacity hints dropped (String::with_capacity(n) -> String::new())
//! D11 println!/eprintln!/debug output -> dropped
use crate::index::{FnEntry, Index};
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{format_ident, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::parse::Parser;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default, Clone, Debug)]
pub struct LoopSpec {
    pub inv: String,
    pub dec: String,
    pub pre: String,
    pub begin: String,
    pub end: String,
    pub post: String,
    pub ens: String,
}

pub struct Ctx<'a> {
    pub table: &'a mut Vec<String>,
    pub loops: BTreeMap<usize, LoopSpec>,
    pub nloops: usize,
    pub opts: BTreeSet<String>,
    pub known: &'a BTreeSet<String>,
    pub idx: &'a Index,
    pub me: &'a FnEntry,
    pub dropped: Vec<String>,
    pub inlined: Vec<String>,
    pub auto: Vec<String>,
    pub tmp: usize,
    pub depth: usize,
    pub lits: Option<&'a mut BTreeMap<String, usize>>,
    /// texts written by the next loop (`opt xmllits`)
    pub snaps: Vec<String>,
}

impl<'a> Ctx<'a> {
    pub fn mark(&mut self, kind: &str, text: &str) -> Stmt {
        self.table.push(text.to_string());
        let n = Literal::usize_unsuffixed(self.table.len() - 1);
        let m = format_ident!("{}", kind);
        parse_quote! { #m!(#n); }
    }
    fn is_mut_ref(&self, e: &Expr) -> bool {
        let Expr::Path(p) = e else { return false };
        let Some(id) = p.path.get_ident() else { return false };
        self.me.sig.inputs.iter().any(|a| match a {
            FnArg::Typed(t) => matches!(&*t.pat, Pat::Ident(i) if &i.ident == id) && matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()),
            _ => false,
        })
    }
    fn opt(&self, s: &str) -> bool {
        self.opts.contains(s)
    }
    fn loop_marks(&mut self, n: usize, auto_inv: String, auto_dec: String) -> (Vec<Stmt>, Vec<Stmt>, Vec<Stmt>, Vec<Stmt>) {
        let sp = self.loops.get(&n).cloned().unwrap_or_default();
        let mut head = String::new();
        let mut inv = auto_inv;
        // what a loop adds to a text is complete (proved, like every invariant)
        let mut snap = String::new();
        for x in std::mem::take(&mut self.snaps) {
            snap.push_str(&format!("let ghost vx_g{n}_{x} = {x}@;\n"));
            if !inv.is_empty() {
                inv.push_str(",\n");
            }
            inv.push_str(&format!("same{}(vx_g{n}_{x}, {x}@)", if x.contains("attr") { "a" } else { "" }));
        }
        if !sp.inv.trim().is_empty() {
            if !inv.is_empty() {
                inv.push_str(",\n");
            }
            inv.push_str(&sp.inv);
        }
        let key = if self.opt(&format!("ieb{n}")) { "invariant_except_break" } else { "invariant" };
        if !inv.trim().is_empty() {
            head.push_str(&format!("{key} {inv}\n"));
        }
        if !sp.ens.trim().is_empty() {
            head.push_str(&format!("ensures {}\n", sp.ens));
        }
        let dec = if sp.dec.trim().is_empty() { auto_dec } else { sp.dec.clone() };
        if !dec.is_empty() {
            head.push_str(&format!("decreases {dec}\n"));
        }
        let mut bodyhead = vec![self.mark("vx_h", &head)];
        if !sp.begin.is_empty() {
            bodyhead.push(self.mark("vx_m", &sp.begin));
        }
        snap.push_str(&sp.pre);
        let pre = if snap.is_empty() { vec![] } else { vec![self.mark("vx_m", &snap)] };
        let end = if sp.end.is_empty() { vec![] } else { vec![self.mark("vx_m", &sp.end)] };
        let post = if sp.post.is_empty() { vec![] } else { vec![self.mark("vx_m", &sp.post)] };
        (pre, bodyhead, end, post)
    }

    // ---------- format strings ----------
    fn fmt_pushes(&mut self, ts: TokenStream, target: Expr) -> std::result::Result<Vec<Stmt>, String> {
        let parser = punctuated::Punctuated::<FArg, Token![,]>::parse_terminated;
        let args = parser.parse2(ts).map_err(|e| e.to_string())?;
        let mut it = args.into_iter();
        let lit = match it.next() {
            Some(FArg { name: None, e: Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) }) => s.value(),
            _ => return Err("format string is not a literal".into()),
        };
        let mut pos = vec![];
        let mut named: BTreeMap<String, Expr> = BTreeMap::new();
        for a in it {
            match a.name {
                Some(n) => {
                    named.insert(n, a.e);
                }
                None => pos.push(a.e),
            }
        }
        let mut out: Vec<Stmt> = vec![];
        let mut cur = String::new();
        let cs: Vec<char> = lit.chars().collect();
        let mut i = 0;
        let mut next = 0;
        macro_rules! flush {
            () => {
                if !cur.is_empty() {
                    let l = self.lit_expr(&cur);
                    out.push(parse_quote! { #target.push_str(#l); });
                    cur.clear();
                }
            };
        }
        while i < cs.len() {
            let c = cs[i];
            if c == '{' {
                if i + 1 < cs.len() && cs[i + 1] == '{' {
                    cur.push('{');
                    i += 2;
                    continue;
                }
                let mut j = i + 1;
                let mut body = String::new();
                while j < cs.len() && cs[j] != '}' {
                    body.push(cs[j]);
                    j += 1;
                }
                i = j + 1;
                let (name, spec) = match body.split_once(':') {
                    Some((a, b)) => (a.trim().to_string(), b.to_string()),
                    None => (body.trim().to_string(), String::new()),
                };
                let e: Expr = if name.is_empty() {
                    let e = pos.get(next).cloned().ok_or("missing format arg")?;
                    next += 1;
                    e
                } else if let Ok(k) = name.parse::<usize>() {
                    pos.get(k).cloned().ok_or("missing format arg")?
                } else if let Some(e) = named.get(&name) {
                    e.clone()
                } else {
                    let id = Ident::new(&name, Span::call_site());
                    parse_quote!(#id)
                };
                if let (Expr::Lit(ExprLit { lit: Lit::Str(l), .. }), true, true) = (&e, spec.is_empty(), self.opt("xmllits")) {
                    cur.push_str(&l.value());
                    continue;
                }
                flush!();
                let m = if spec.is_empty() {
                    format_ident!("vx_fmt")
                } else {
                    let s: String = spec
                        .chars()
                        .map(|c| if c.is_alphanumeric() { c.to_string() } else if c == '?' { "dbg".into() } else { format!("_{:x}_", c as u32) })
                        .collect();
                    format_ident!("vx_fmt_{}", s)
                };
                // a `&mut String` parameter is passed on, anything else is borrowed
                if self.is_mut_ref(&target) {
                    out.push(parse_quote! { (#e).#m(#target); });
                } else {
                    out.push(parse_quote! { (#e).#m(&mut #target); });
                }
            } else if c == '}' {
                cur.push('}');
                i += 2;
            } else {
                cur.push(c);
                i += 1;
            }
        }
        flush!();
        Ok(out)
    }
    pub fn lit_expr(&mut self, s: &str) -> Expr {
        if let Some(l) = self.lits.as_mut() {
            let n = l.len();
            let k = *l.entry(s.to_string()).or_insert(n);
            let f = format_ident!("vx_lit_{}", k);
            return parse_quote!(#f());
        }
        let l = LitStr::new(s, Span::call_site());
        parse_quote!(#l)
    }

    fn fresh(&mut self, p: &str) -> Ident {
        self.tmp += 1;
        format_ident!("vx_{}{}", p, self.tmp)
    }

    // ---------- loops ----------
    fn source(&mut self, e: &Expr) -> Option<Src> {
        match e {
            Expr::Paren(p) => self.source(&p.expr),
            Expr::Reference(r) if r.mutability.is_some() && matches!(&*r.expr, Expr::Path(_) | Expr::Field(_)) => Some(Src::SliceMut((*r.expr).clone())),
            Expr::Reference(r) if r.mutability.is_none() => Some(Src::Slice((*r.expr).clone(), false)),
            Expr::Range(r) => {
                let a = r.start.as_ref()?;
                let b = r.end.as_ref()?;
                Some(Src::Range((**a).clone(), (**b).clone(), matches!(r.limits, RangeLimits::Closed(_))))
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "iter" if m.args.is_empty() => Some(Src::Slice((*m.receiver).clone(), false)),
                    // elements borrowed mutably one by one, by index (places only, so evaluating it again is the same)
                    "iter_mut" if m.args.is_empty() && matches!(&*m.receiver, Expr::Path(_) | Expr::Field(_)) => Some(Src::SliceMut((*m.receiver).clone())),
                    "chars" if m.args.is_empty() => Some(Src::Chars((*m.receiver).clone(), "vx_chars")),
                    "bytes" if m.args.is_empty() => Some(Src::Chars((*m.receiver).clone(), "vx_bytes")),
                    "lines" if m.args.is_empty() => Some(Src::Chars((*m.receiver).clone(), "vx_lines")),
                    "split" if m.args.len() == 1 && self.opt("splitvec") => {
                        let a = &m.args[0];
                        let r = &m.receiver;
                        let suf = if matches!(a, Expr::Lit(ExprLit { lit: Lit::Char(_), .. })) { "_c" } else { "" };
                        let f = format_ident!("vx_split{}", suf);
                        Some(Src::Vec(parse_quote!(#r.#f(#a))))
                    }
                    "enumerate" if m.args.is_empty() => {
                        let s = self.source(&m.receiver)?;
                        Some(Src::Enum(Box::new(s)))
                    }
                    "filter" if m.args.len() == 1 && self.opt("xmllits") => {
                        let Expr::Closure(c) = &m.args[0] else { return None };
                        let s = self.source(&m.receiver)?;
                        (c.inputs.len() == 1).then(|| Src::Filter(Box::new(s), c.inputs[0].clone(), (*c.body).clone()))
                    }
                    "rev" if m.args.is_empty() => {
                        let s = self.source(&m.receiver)?;
                        match s {
                            Src::Slice(e, _) => Some(Src::Slice(e, true)),
                            Src::Range(a, b, c) => Some(Src::RangeRev(a, b, c)),
                            _ => None,
                        }
                    }
                    // a getter of the crate that lends a list
                    n if self.opt("xmllits") && m.args.is_empty() && {
                        let fs: Vec<_> = self.idx.fns.iter().filter(|f| f.sig.ident == n && f.self_ty.is_some() && f.sig.inputs.len() == 1).collect();
                        !fs.is_empty() && fs.iter().all(|f| matches!(&f.sig.output, ReturnType::Type(_, t) if matches!(&**t, Type::Reference(_))))
                    } => Some(Src::Slice(e.clone(), false)),
                    _ if self.opt("forown") => Some(Src::Own(e.clone())),
                    // a call giving a vector of references: by index
                    _ if self.opt("forvec") => Some(Src::Vec(e.clone())),
                    _ => None,
                }
            }
            // an array written out: its elements by index (copied)
            Expr::Array(_) if self.opt("forarr") => Some(Src::Vec(e.clone())),
            // a vector consumed by the loop: its elements moved out one by one, by index
            // a parameter that is a reference lends its elements
            Expr::Path(p) if self.opt("forown") && p.path.get_ident().is_some_and(|i| self.is_ref_param(i)) => Some(Src::Slice(e.clone(), false)),
            Expr::Path(_) | Expr::Call(_) if self.opt("forown") => Some(Src::Own(e.clone())),
            Expr::Path(_) | Expr::Field(_) if self.opt("forpath") => Some(Src::Slice(e.clone(), false)),
            _ => None,
        }
    }

    fn is_ref_param(&self, name: &Ident) -> bool {
        self.me.sig.inputs.iter().any(|a| match a {
            FnArg::Typed(t) => matches!(&*t.ty, Type::Reference(_)) && matches!(&*t.pat, Pat::Ident(p) if p.ident == *name),
            _ => false,
        })
    }

    /// returns (pre-statements, condition, element-binding statements, increment, auto invariant, auto decreases)
    fn src_parts(&mut self, s: Src, n: usize, pat: Option<Pat>) -> (Vec<Stmt>, Expr, Vec<Stmt>, Stmt, String, String) {
        let i = format_ident!("vx_i{}", n);
        let sv = format_ident!("vx_s{}", n);
        let ev = format_ident!("vx_e{}", n);
        match s {
            Src::Range(a, b, closed) => {
                let lo = format_ident!("vx_b{}", n);
                let pre: Vec<Stmt> = vec![
                    parse_quote! { let #lo = #a; },
                    parse_quote! { let #ev = #b; },
                    parse_quote! { let mut #i = #lo; },
                ];
                if closed {
                    // i..=e : guarded by a done flag so that e == MAX does not overflow
                    let d = format_ident!("vx_d{}", n);
                    let mut pre = pre;
                    pre.push(parse_quote! { let mut #d = false; });
                    let bind: Vec<Stmt> = match pat {
                        Some(p) => vec![parse_quote! { let #p = #i; }],
                        None => vec![],
                    };
                    let inc: Stmt = parse_quote! { if #i < #ev { #i = #i + 1; } else { #d = true; } };
                    return (
                        pre,
                        parse_quote! { !#d && #i <= #ev },
                        bind,
                        inc,
                        format!("vx_b{n} <= vx_i{n}, vx_i{n} <= vx_e{n} || vx_i{n} == vx_b{n}, vx_d{n} ==> vx_i{n} >= vx_e{n}"),
                        format!("(vx_e{n} - vx_i{n}) + (if vx_d{n} {{ 0int }} else {{ 1int }})"),
                    );
                }
                let bind: Vec<Stmt> = match pat {
                    Some(p) => vec![parse_quote! { let #p = #i; }],
                    None => vec![],
                };
                (
                    pre,
                    parse_quote! { #i < #ev },
                    bind,
                    parse_quote! { #i = #i + 1; },
                    format!("vx_b{n} <= vx_i{n}, vx_i{n} <= vx_e{n} || vx_i{n} == vx_b{n}"),
                    format!("vx_e{n} - vx_i{n}"),
                )
            }
            // counted down; the last value ends the loop, so nothing underflows
            Src::RangeRev(a, b, closed) => {
                let lo = format_ident!("vx_b{}", n);
                let mut pre: Vec<Stmt> = vec![
                    parse_quote! { let #lo = #a; },
                    parse_quote! { let #ev = #b; },
                    parse_quote! { let mut #i = #ev; },
                ];
                if closed {
                    let d = format_ident!("vx_d{}", n);
                    pre.push(parse_quote! { let mut #d = false; });
                    let bind: Vec<Stmt> = match pat {
                        Some(p) => vec![parse_quote! { let #p = #i; }],
                        None => vec![],
                    };
                    return (
                        pre,
                        parse_quote! { !#d && #lo <= #i },
                        bind,
                        parse_quote! { if #lo < #i { #i = #i - 1; } else { #d = true; } },
                        format!("vx_i{n} <= vx_e{n}, vx_b{n} <= vx_i{n} || vx_i{n} == vx_e{n}, vx_d{n} ==> vx_i{n} <= vx_b{n}"),
                        format!("(vx_i{n} - vx_b{n}) + (if vx_d{n} {{ 0int }} else {{ 1int }})"),
                    );
                }
                let bind: Vec<Stmt> = match pat {
                    Some(p) => vec![parse_quote! { let #p = #i - 1; }],
                    None => vec![],
                };
                (
                    pre,
                    parse_quote! { #lo < #i },
                    bind,
                    parse_quote! { #i = #i - 1; },
                    format!("vx_i{n} <= vx_e{n}, vx_b{n} <= vx_i{n} || vx_i{n} == vx_e{n}"),
                    format!("vx_i{n} - vx_b{n}"),
                )
            }
            Src::Filter(inner, q, cond) => {
                let el = format_ident!("vx_el{}", n);
                let (pre, test, mut bind, inc, inv, dec) = self.src_parts(*inner, n, Some(parse_quote!(#el)));
                bind.push(parse_quote! { let #q = &#el; });
                bind.push(parse_quote! { if !(#cond) { #inc continue; } });
                if let Some(p) = pat {
                    if !matches!(p, Pat::Wild(_)) {
                        bind.push(parse_quote! { let #p = #el; });
                    }
                }
                (pre, test, bind, inc, inv, dec)
            }
            Src::Enum(inner) if matches!(*inner, Src::Filter(..)) => {
                let k = format_ident!("vx_c{}", n);
                let el = format_ident!("vx_en{}", n);
                let (mut pre, test, mut bind, inc, inv, dec) = self.src_parts(*inner, n, Some(parse_quote!(#el)));
                pre.push(parse_quote! { let mut #k: usize = 0; });
                if let Some(p) = pat {
                    bind.push(parse_quote! { let #p = (#k, #el); });
                }
                bind.push(parse_quote! { #k = #k + 1; });
                (pre, test, bind, inc, format!("{inv}, vx_c{n} <= vx_i{n}"), dec)
            }
            Src::Enum(inner) => {
                let (pi, px) = match pat {
                    Some(Pat::Tuple(t)) if t.elems.len() == 2 => (Some(t.elems[0].clone()), Some(t.elems[1].clone())),
                    Some(Pat::Wild(_)) | None => (None, None),
                    Some(p) => {
                        // whole-tuple pattern
                        let (pre, cond, mut bind, inc, inv, dec) = self.src_parts(*inner, n, Some(parse_quote!(vx_el)));
                        bind.push(parse_quote! { let #p = (#i, vx_el); });
                        return (pre, cond, bind, inc, inv, dec);
                    }
                };
                let (pre, cond, mut bind, inc, inv, dec) = self.src_parts(*inner, n, px);
                if let Some(pi) = pi {
                    if !matches!(pi, Pat::Wild(_)) {
                        bind.insert(0, parse_quote! { let #pi = #i; });
                    }
                }
                (pre, cond, bind, inc, inv, dec)
            }
            Src::Slice(e, rev) => {
                let pre: Vec<Stmt> = vec![parse_quote! { let #sv = &(#e); }, parse_quote! { let mut #i: usize = 0; }];
                let at: Expr = if rev { parse_quote! { &#sv[#sv.len() - 1 - #i] } } else { parse_quote! { &#sv[#i] } };
                (
                    pre,
                    parse_quote! { #i < #sv.len() },
                    bind_el(pat, at, true),
                    parse_quote! { #i = #i + 1; },
                    format!("vx_i{n} <= vx_s{n}@.len()"),
                    format!("vx_s{n}@.len() - vx_i{n}"),
                )
            }
            Src::SliceMut(e) => {
                let pre: Vec<Stmt> = vec![parse_quote! { let #ev = #e.len(); }, parse_quote! { let mut #i: usize = 0; }];
                let bind: Vec<Stmt> = match pat {
                    None | Some(Pat::Wild(_)) => vec![],
                    Some(p) => vec![parse_quote! { let #p = &mut #e[#i]; }],
                };
                (
                    pre,
                    parse_quote! { #i < #ev },
                    bind,
                    parse_quote! { #i = #i + 1; },
                    format!("vx_i{n} <= vx_e{n}"),
                    format!("vx_e{n} - vx_i{n}"),
                )
            }
            Src::Chars(e, f) => {
                let f = format_ident!("{}", f);
                let pre: Vec<Stmt> = vec![parse_quote! { let #sv = (#e).#f(); }, parse_quote! { let mut #i: usize = 0; }];
                (
                    pre,
                    parse_quote! { #i < #sv.len() },
                    bind_el(pat, parse_quote! { #sv[#i] }, false),
                    parse_quote! { #i = #i + 1; },
                    format!("vx_i{n} <= vx_s{n}@.len()"),
                    format!("vx_s{n}@.len() - vx_i{n}"),
                )
            }
            Src::Own(e) => {
                let pre: Vec<Stmt> = vec![parse_quote! { let #sv = #e; }, parse_quote! { let mut #i: usize = 0; }];
                let bind: Vec<Stmt> = match pat {
                    None | Some(Pat::Wild(_)) => vec![],
                    Some(p) => vec![parse_quote! { let #p = vx_move_out(&#sv, #i); }],
                };
                (
                    pre,
                    parse_quote! { #i < #sv.len() },
                    bind,
                    parse_quote! { #i = #i + 1; },
                    format!("vx_i{n} <= vx_s{n}@.len()"),
                    format!("vx_s{n}@.len() - vx_i{n}"),
                )
            }
            Src::Vec(e) => {
                let pre: Vec<Stmt> = vec![parse_quote! { let #sv = #e; }, parse_quote! { let mut #i: usize = 0; }];
                (
                    pre,
                    parse_quote! { #i < #sv.len() },
                    bind_el(pat, parse_quote! { #sv[#i] }, false),
                    parse_quote! { #i = #i + 1; },
                    format!("vx_i{n} <= vx_s{n}@.len()"),
                    format!("vx_s{n}@.len() - vx_i{n}"),
                )
            }
        }
    }

    fn note_texts(&mut self, b: &Block) {
        self.snaps.clear();
        if !self.opt("xmllits") {
            return;
        }
        struct W {
            used: BTreeSet<String>,
            own: BTreeSet<String>,
        }
        fn id(e: &Expr) -> Option<String> {
            match e {
                Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
                _ => None,
            }
        }
        impl VisitMut for W {
            fn visit_expr_method_call_mut(&mut self, e: &mut ExprMethodCall) {
                let text = matches!(e.args.first(), Some(Expr::Lit(ExprLit { lit: Lit::Char(_), .. })));
                let m = e.method.to_string();
                if matches!(m.as_str(), "push_str" | "raw" | "start_element" | "empty_element" | "end_element" | "text") || m == "push" && text {
                    if let Some(i) = id(&e.receiver) {
                        self.used.insert(i);
                    }
                }
                syn::visit_mut::visit_expr_method_call_mut(self, e);
            }
            fn visit_expr_assign_mut(&mut self, e: &mut ExprAssign) {
                if let (Some(i), Expr::MethodCall(m)) = (id(&e.left), &*e.right) {
                    let mut r = &*m.receiver;
                    while let Expr::MethodCall(x) = r {
                        r = &*x.receiver;
                    }
                    if id(r) == Some(i.clone()) {
                        self.used.insert(i);
                    }
                }
                syn::visit_mut::visit_expr_assign_mut(self, e);
            }
            fn visit_macro_mut(&mut self, m: &mut Macro) {
                if m.path.segments.last().is_some_and(|s| s.ident == "write" || s.ident == "writeln") {
                    if let Some(TokenTree::Ident(i)) = m.tokens.clone().into_iter().next() {
                        self.used.insert(i.to_string());
                    }
                }
            }
            fn visit_local_mut(&mut self, l: &mut Local) {
                syn::visit_mut::visit_local_mut(self, l);
            }
            fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
                self.own.insert(p.ident.to_string());
            }
            fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
                for a in &c.args {
                    if let Expr::Reference(r) = a {
                        if r.mutability.is_some() {
                            if let Some(i) = id(&r.expr) {
                                if matches!(i.as_str(), "xml" | "out" | "buf" | "html" | "body") {
                                    self.used.insert(i);
                                }
                            }
                        }
                    }
                }
                syn::visit_mut::visit_expr_call_mut(self, c);
            }
        }
        let mut w = W { used: Default::default(), own: Default::default() };
        w.visit_block_mut(&mut b.clone());
        self.snaps = w.used.difference(&w.own).filter(|x| *x != "self").cloned().collect();
    }
    fn for_loop(&mut self, f: ExprForLoop) -> Expr {
        let n = self.nloops;
        self.nloops += 1;
        let src = match self.source(&f.expr) {
            Some(s) => s,
            None => {
                self.dropped.push(format!("for-loop over `{}` left as is", f.expr.to_token_stream()));
                let mut f = f;
                self.note_texts(&f.body);
                let (pre, head, end, post) = self.loop_marks(n, String::new(), String::new());
                let mut st = head;
                st.extend(f.body.stmts.clone());
                st.extend(end);
                f.body.stmts = st;
                self.visit_block_mut(&mut f.body);
                self.visit_expr_mut(&mut f.expr);
                return parse_quote!({ #(#pre)* #f #(#post)* });
            }
        };
        let (mut pre, cond, bind, inc, inv, dec) = self.src_parts(src, n, Some((*f.pat).clone()));
        self.note_texts(&f.body);
        let (umpre, head, end, post) = self.loop_marks(n, inv, dec);
        for s in pre.iter_mut() {
            self.visit_stmt_mut(s);
        }
        let mut body = f.body;
        self.visit_block_mut(&mut body);
        let stmts = body.stmts;
        let lab = f.label;
        // with `continue` in the body the increment must come first; bindings are copied before it
        parse_quote!({ #(#pre)* #(#umpre)* #lab while #cond { #(#head)* #(#bind)* #inc #(#stmts)* #(#end)* } #(#post)* })
    }

    /// `.iter().any(..)` and friends
    fn chain(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let single_closure = |m: &ExprMethodCall| -> Option<(Pat, Expr)> {
            if m.args.len() != 1 {
                return None;
            }
            match &m.args[0] {
                Expr::Closure(c) if c.inputs.len() == 1 => {
                    let mut p = c.inputs[0].clone();
                    if let Pat::Type(t) = p {
                        p = (*t.pat).clone();
                    }
                    Some((p, (*c.body).clone()))
                }
                Expr::Path(p) => {
                    let p = p.clone();
                    Some((parse_quote!(vx_x), parse_quote!(#p(vx_x))))
                }
                _ => None,
            }
        };
        match name.as_str() {
            "any" | "all" | "position" => {
                let (p, b) = single_closure(m)?;
                let src = self.source(&m.receiver)?;
                let n = self.nloops;
                self.nloops += 1;
                let (mut pre, cond, bind, inc, inv, dec) = self.src_parts(src, n, Some(p));
                let r = format_ident!("vx_r{}", n);
                let i = format_ident!("vx_i{}", n);
                let (upre, head, end, post) = self.loop_marks(n, inv, dec + &format!(" + (if vx_r{n}{} {{ 0int }} else {{ 1int }})", match name.as_str() { "position" => " is Some", "all" => " == false", _ => "" }));
                for s in pre.iter_mut() {
                    self.visit_stmt_mut(s);
                }
                let mut b = b;
                self.visit_expr_mut(&mut b);
                Some(match name.as_str() {
                    "any" => parse_quote!({ #(#pre)* let mut #r: bool = false; #(#upre)* while !#r && #cond { #(#head)* #(#bind)* if #b { #r = true; } else { #inc } #(#end)* } #(#post)* #r }),
                    "all" => parse_quote!({ #(#pre)* let mut #r: bool = true; #(#upre)* while #r && #cond { #(#head)* #(#bind)* if #b { #inc } else { #r = false; } #(#end)* } #(#post)* #r }),
                    _ => parse_quote!({ #(#pre)* let mut #r: Option<usize> = None; #(#upre)* while #r.is_none() && #cond { #(#head)* #(#bind)* if #b { #r = Some(#i); } else { #inc } #(#end)* } #(#post)* #r }),
                })
            }
            "find" if matches!(&*m.receiver, Expr::MethodCall(r) if r.method == "iter_mut" && r.args.is_empty()) => {
                let Expr::MethodCall(rc) = &*m.receiver else { return None };
                let (p, b) = single_closure(m)?;
                let n = self.nloops;
                self.nloops += 1;
                let v = (*rc.receiver).clone();
                let (mut pre, cond, bind, inc, inv, dec) = self.src_parts(Src::Slice(v.clone(), false), n, Some(parse_quote!(vx_el)));
                let r = format_ident!("vx_r{}", n);
                let i = format_ident!("vx_i{}", n);
                let (upre, head, end, post) = self.loop_marks(n, inv, dec + &format!(" + (if vx_r{n} is Some {{ 0int }} else {{ 1int }})"));
                for s in pre.iter_mut() {
                    self.visit_stmt_mut(s);
                }
                let mut b = b;
                self.visit_expr_mut(&mut b);
                let mut v = v;
                self.visit_expr_mut(&mut v);
                let bp = bind_pred(p);
                Some(parse_quote!({ #(#pre)* let mut #r: Option<usize> = None; #(#upre)* while #r.is_none() && #cond { #(#head)* #(#bind)* #bp if #b { #r = Some(#i); } else { #inc } #(#end)* } #(#post)* match #r { Some(vx_k) => Some(&mut #v[vx_k]), None => None } }))
            }
            "find" => {
                let (p, b) = single_closure(m)?;
                let src = self.source(&m.receiver)?;
                if matches!(src, Src::Range(..)) {
                    return None;
                }
                let n = self.nloops;
                self.nloops += 1;
                let (mut pre, cond, bind, inc, inv, dec) = self.src_parts(src, n, Some(parse_quote!(vx_el)));
                let r = format_ident!("vx_r{}", n);
                let (upre, head, end, post) = self.loop_marks(n, inv, dec + &format!(" + (if vx_r{n} is Some {{ 0int }} else {{ 1int }})"));
                for s in pre.iter_mut() {
                    self.visit_stmt_mut(s);
                }
                let mut b = b;
                self.visit_expr_mut(&mut b);
                let bp = bind_pred(p);
                Some(parse_quote!({ #(#pre)* let mut #r = None; #(#upre)* while #r.is_none() && #cond { #(#head)* #(#bind)* #bp if #b { #r = Some(vx_el); } else { #inc } #(#end)* } #(#post)* #r }))
            }
            // D13 v.retain(|x| P) / v.sort_by_key(|x| K): the closure becomes a loop over the elements, the
            // rearrangement itself is an assumed contract (units/prelude.rs)
            "retain" | "sort_by_key" => {
                let (p, b) = single_closure(m)?;
                let n = self.nloops;
                self.nloops += 1;
                let rc = (*m.receiver).clone();
                let (mut pre, cond, bind, inc, inv, dec) = self.src_parts(Src::Slice(rc.clone(), false), n, Some(parse_quote!(vx_el)));
                let r = format_ident!("vx_r{}", n);
                let inv = format!("{inv}, vx_r{n}@.len() == vx_i{n}");
                let (upre, head, end, post) = self.loop_marks(n, inv, dec);
                for s in pre.iter_mut() {
                    self.visit_stmt_mut(s);
                }
                let mut b = b;
                self.visit_expr_mut(&mut b);
                let mut rc = rc;
                self.visit_expr_mut(&mut rc);
                let bp = bind_el(Some(p), parse_quote!(vx_el), true);
                let f = format_ident!("vx_{}s", if name == "retain" { "retain_mask" } else { "sort_by_key" });
                Some(parse_quote!({ #(#pre)* let mut #r = Vec::new(); #(#upre)* while #cond { #(#head)* #(#bind)* #inc #(#bp)* #r.push(#b); #(#end)* } #(#post)* #f(&mut #rc, &#r); }))
            }
            "count" | "collect" | "sum" => {
                // [map|filter]* over a source
                let mut stages: Vec<(String, Pat, Expr)> = vec![];
                let mut cur = (*m.receiver).clone();
                loop {
                    let mc = match &cur {
                        Expr::MethodCall(mc) => mc.clone(),
                        _ => break,
                    };
                    let nm = mc.method.to_string();
                    if nm == "map" || nm == "filter" || nm == "filter_map" {
                        let (p, b) = single_closure(&mc)?;
                        stages.push((nm, p, b));
                        cur = (*mc.receiver).clone();
                    } else if (nm == "cloned" || nm == "copied") && mc.args.is_empty() {
                        stages.push(("map".into(), parse_quote!(vx_c), parse_quote!(vx_c.clone())));
                        cur = (*mc.receiver).clone();
                    } else {
                        break;
                    }
                }
                stages.reverse();
                if stages.is_empty() && name == "count" {
                    return None;
                }
                let src = self.source(&cur)?;
                let n = self.nloops;
                self.nloops += 1;
                let (mut pre, cond, bind, inc, inv, dec) = self.src_parts(src, n, Some(parse_quote!(vx_el)));
                let r = format_ident!("vx_r{}", n);
                let tf0 = m.turbofish.as_ref().map(|t| t.to_token_stream().to_string().replace(' ', "")).unwrap_or_default();
                if self.opt("xmllits") && name == "collect" && (tf0.contains("String>") && !tf0.contains("Vec<") || self.opt("collect_string")) {
                    self.snaps = vec![format!("vx_r{n}")];
                }
                let (upre, head, end, post) = self.loop_marks(n, inv, dec);
                for s in pre.iter_mut() {
                    self.visit_stmt_mut(s);
                }
                let tf = m.turbofish.as_ref().map(|t| t.to_token_stream().to_string().replace(' ', "")).unwrap_or_default();
                let to_string = tf.contains("String>") && !tf.contains("Vec<") || self.opt("collect_string");
                let mut body: Expr = match name.as_str() {
                    "count" => parse_quote!({ #r = #r + 1; }),
                    "sum" if stages.is_empty() => parse_quote!({ #r = #r + *vx_el; }),
                    "sum" => parse_quote!({ #r = #r + vx_el; }),
                    _ if to_string => parse_quote!({ vx_el.vx_fmt(&mut #r); }),
                    _ => parse_quote!({ #r.push(vx_el); }),
                };
                for (k, p, b) in stages.iter().rev() {
                    let mut b = b.clone();
                    self.visit_expr_mut(&mut b);
                    body = if k == "map" {
                        let bm = bind_el(Some(p.clone()), parse_quote!(vx_el), false);
                        parse_quote!({ #(#bm)* let vx_el = #b; #body })
                    } else if k == "filter_map" {
                        let bm = bind_el(Some(p.clone()), parse_quote!(vx_el), false);
                        parse_quote!({ #(#bm)* if let Some(vx_el) = #b { #body } })
                    } else {
                        let bp = bind_pred(p.clone());
                        parse_quote!({ #bp if #b { #body } })
                    };
                }
                let init: Expr = match name.as_str() {
                    "count" => parse_quote!(0usize),
                    "sum" => parse_quote!(0),
                    _ if to_string => parse_quote!(String::new()),
                    _ => parse_quote!(Vec::new()),
                };
                Some(parse_quote!({ #(#pre)* let mut #r = #init; #(#upre)* while #cond { #(#head)* #(#bind)* #inc #body #(#end)* } #(#post)* #r }))
            }
            _ => None,
        }
    }

    fn option_closure(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        if !self.opt("optmatch") {
            return None;
        }
        let name = m.method.to_string();
        let r = &m.receiver;
        let clos = |k: usize| -> Option<(Vec<Pat>, Expr)> {
            match m.args.get(k)? {
                Expr::Closure(c) => Some((c.inputs.iter().map(|p| if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() }).collect(), (*c.body).clone())),
                Expr::Path(p) => Some((vec![parse_quote!(vx_x)], parse_quote!(#p(vx_x)))),
                _ => None,
            }
        };
        match name.as_str() {
            "map" => {
                let (p, b) = clos(0)?;
                let p = p.first()?.clone();
                Some(parse_quote!(match #r { Some(#p) => Some(#b), None => None }))
            }
            "and_then" => {
                let (p, b) = clos(0)?;
                let p = p.first()?.clone();
                Some(parse_quote!(match #r { Some(#p) => #b, None => None }))
            }
            "map_or" => {
                let d = m.args.get(0)?;
                let (p, b) = clos(1)?;
                let p = p.first()?.clone();
                Some(parse_quote!(match #r { Some(#p) => #b, None => #d }))
            }
            "is_some_and" => {
                let (p, b) = clos(0)?;
                let p = p.first()?.clone();
                Some(parse_quote!(match #r { Some(#p) => #b, None => false }))
            }
            "unwrap_or_else" => {
                let (p, b) = clos(0)?;
                if !p.is_empty() {
                    return None;
                }
                Some(parse_quote!(match #r { Some(vx_v) => vx_v, None => #b }))
            }
            "or_else" => {
                let (p, b) = clos(0)?;
                if !p.is_empty() {
                    return None;
                }
                Some(parse_quote!(match #r { Some(vx_v) => Some(vx_v), None => #b }))
            }
            "unwrap_or_default" if self.opt("default_string") => Some(parse_quote!(match #r { Some(vx_v) => vx_v, None => String::new() })),
            "filter" => {
                let (p, b) = clos(0)?;
                let p = p.first()?.clone();
                let bp = bind_pred(p);
                Some(parse_quote!(match #r { Some(vx_el) => { #bp if #b { Some(vx_el) } else { None } } None => None }))
            }
            "ok_or_else" => {
                let (p, b) = clos(0)?;
                if !p.is_empty() {
                    return None;
                }
                Some(parse_quote!(match #r { Some(vx_v) => Ok(vx_v), None => Err(#b) }))
            }
            "map_err" => {
                let (p, b) = clos(0)?;
                let p = p.first()?.clone();
                Some(parse_quote!(match #r { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(#b) }))
            }
            _ => None,
        }
    }

    fn try_inline(&mut self, name: &str, self_recv: bool, args: &[Expr]) -> Option<Expr> {
        if self.depth > 4 {
            return None;
        }
        let st = self.me.self_ty.as_ref().map(crate::index::type_key).unwrap_or_default();
        let q = if self_recv || name.starts_with("Self::") {
            format!("{}::{}", st, name.trim_start_matches("Self::"))
        } else {
            name.to_string()
        };
        if self.known.contains(&q) || q == self.me.qual {
            return None;
        }
        let f = self.idx.find_fn(&q, Some(&self.me.file), None).ok()?.clone();
        if !q.contains("::") && f.file != self.me.file {
            // free helper in another file: only if unique in the crate (find_fn guarantees) - accepted
        }
        let has_ret = {
            struct R(bool);
            impl<'x> syn::visit::Visit<'x> for R {
                fn visit_expr_return(&mut self, _: &'x ExprReturn) {
                    self.0 = true
                }
                fn visit_expr_try(&mut self, _: &'x ExprTry) {
                    self.0 = true
                }
                fn visit_expr_closure(&mut self, _: &'x ExprClosure) {}
            }
            let mut r = R(false);
            syn::visit::Visit::visit_block(&mut r, &f.block);
            r.0
        };
        if has_ret || !f.sig.generics.params.is_empty() {
            self.auto.push(f.qual.clone());
            return None;
        }
        let mut binds: Vec<Stmt> = vec![];
        let mut ai = 0;
        for p in &f.sig.inputs {
            match p {
                FnArg::Receiver(_) => {
                    if !self_recv {
                        return None;
                    }
                }
                FnArg::Typed(t) => {
                    let a = args.get(ai)?.clone();
                    ai += 1;
                    let pat = &t.pat;
                    let ty = &t.ty;
                    // two-step binding avoids capture of caller names by callee parameters
                    let tmp = self.fresh("a");
                    binds.push(parse_quote! { let #tmp: #ty = #a; });
                    binds.push(parse_quote! { let #pat: #ty = #tmp; });
                }
            }
        }
        // all temporaries first
        let (t, l): (Vec<_>, Vec<_>) = binds.into_iter().enumerate().partition(|(i, _)| i % 2 == 0);
        let t: Vec<Stmt> = t.into_iter().map(|x| x.1).collect();
        let l: Vec<Stmt> = l.into_iter().map(|x| x.1).collect();
        let b = f.block.stmts.clone();
        self.inlined.push(f.qual.clone());
        Some(parse_quote!({ #(#t)* #(#l)* #(#b)* }))
    }
}

enum Src {
    Slice(Expr, bool),
    SliceMut(Expr),
    Range(Expr, Expr, bool),
    RangeRev(Expr, Expr, bool),
    Chars(Expr, &'static str),
    Vec(Expr),
    Own(Expr),
    Enum(Box<Src>),
    /// elements that satisfy a closure
    Filter(Box<Src>, Pat, Expr),
}

fn bind_el(pat: Option<Pat>, at: Expr, by_ref: bool) -> Vec<Stmt> {
    match pat {
        None | Some(Pat::Wild(_)) => vec![],
        Some(Pat::Reference(r)) if by_ref => {
            let p = &r.pat;
            // `for &x in` : x = *(&s[i])
            vec![parse_quote! { let #p = *(#at); }]
        }
        Some(Pat::Reference(r)) => {
            let p = &r.pat;
            vec![parse_quote! { let #p = *#at; }]
        }
        Some(Pat::Tuple(t)) => {
            // destructuring a reference to a tuple
            if by_ref {
                let mut v: Vec<Stmt> = vec![parse_quote! { let vx_tp = #at; }];
                for (k, e) in t.elems.iter().enumerate() {
                    if matches!(e, Pat::Wild(_)) {
                        continue;
                    }
                    let ix = Index_(k);
                    v.push(parse_quote! { let #e = &vx_tp.#ix; });
                }
                v
            } else {
                vec![parse_quote! { let #t = #at; }]
            }
        }
        Some(p) => vec![parse_quote! { let #p = #at; }],
    }
}
#[allow(non_snake_case)]
fn Index_(k: usize) -> syn::Index {
    syn::Index::from(k)
}
/// closure over `&item`: |p| / |&p| / |(a, b)|
fn bind_pred(p: Pat) -> Stmt {
    match p {
        Pat::Reference(r) => {
            let p = &r.pat;
            match &**p {
                Pat::Reference(rr) => {
                    let q = &rr.pat;
                    parse_quote! { let #q = *vx_el; }
                }
                _ => parse_quote! { let #p = vx_el; },
            }
        }
        Pat::Wild(_) => parse_quote! { {} },
        Pat::Tuple(t) => parse_quote! { let #t = vx_el; },
        p => parse_quote! { let #p = &vx_el; },
    }
}

struct FArg {
    name: Option<String>,
    e: Expr,
}
impl parse::Parse for FArg {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        if i.peek(syn::Ident) && i.peek2(Token![=]) && !i.peek2(Token![==]) {
            let n: syn::Ident = i.parse()?;
            i.parse::<Token![=]>()?;
            return Ok(FArg { name: Some(n.to_string()), e: i.parse()? });
        }
        Ok(FArg { name: None, e: i.parse()? })
    }
}

use proc_macro2::Literal;

fn shorten(p: &mut Path) {
    let first = match p.segments.first() {
        Some(s) => s.ident.to_string(),
        None => return,
    };
    if !(first == "crate" || first == "super" || first == "self" && p.segments.len() > 1) {
        return;
    }
    let n = p.segments.len();
    let keep = if n >= 2 && p.segments[n - 2].ident.to_string().chars().next().unwrap().is_uppercase() { 2 } else { 1 };
    let segs: Vec<PathSegment> = p.segments.iter().skip(n - keep).cloned().collect();
    p.leading_colon = None;
    p.segments = segs.into_iter().collect();
}

fn is_str_lit(e: &Expr) -> bool {
    matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))
}

const STR_METHODS: &[&str] = &[
    "starts_with", "ends_with", "strip_prefix", "strip_suffix", "trim", "trim_start", "trim_end", "trim_matches",
    "trim_start_matches", "trim_end_matches", "find", "rfind", "split", "rsplit", "replace", "to_lowercase",
    "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "rsplit_once", "split_once", "eq_ignore_ascii_case",
    "is_alphanumeric", "is_alphabetic", "is_ascii_digit", "is_ascii_hexdigit", "is_whitespace", "is_ascii_alphanumeric",
    "to_vec", "bytes", "chars", "lines", "into_bytes", "abs_diff", "as_bytes", "join", "is_char_boundary", "extend_from_slice", "repeat", "is_ascii", "splitn", "dedup",
    "iter_mut", "is_ascii_punctuation", "to_digit", "is_control", "insert_str", "into_owned", "as_deref", "is_dir", "abs",
];

impl<'a> VisitMut for Ctx<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        shorten(p);
        // `module::function`
        if p.segments.len() == 2 && self.opt("xmllits") {
            let (m, f) = (p.segments[0].ident.to_string(), p.segments[1].ident.to_string());
            if self.idx.fns.iter().any(|x| x.qual == f && (x.file.contains(&format!("/{m}.rs")) || x.file.contains(&format!("/{m}/")))) {
                let l = p.segments[1].clone();
                p.segments = std::iter::once(l).collect();
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // let-else, write! statements, dropped macros handled per statement
        let mut out: Vec<Stmt> = vec![];
        let all = std::mem::take(&mut b.stmts);
        let last = all.len();
        for (k, s) in all.into_iter().enumerate() {
            // `opt ifcheck`: what a conditional adds to a text is complete (asserted, so proved)
            let mut after = vec![];
            if self.opt("ifcheck") && (k + 1 < last || matches!(s, Stmt::Expr(_, Some(_)))) {
                if let Stmt::Expr(Expr::If(_) | Expr::Match(_), _) = &s {
                    self.note_texts(&parse_quote!({ #s }));
                    for x in std::mem::take(&mut self.snaps) {
                        self.tmp += 1;
                        let g = format!("vx_c{}_{x}", self.tmp);
                        out.push(self.mark("vx_m", &format!("let ghost {g} = {x}@;")));
                        let r = if self.is_mut_ref(&parse_str(&x).unwrap()) { "" } else { "&mut " };
                        after.push(self.mark("vx_m", &format!("vx_hide({r}{x}, Ghost({g}));")));
                    }
                }
            }
            match s {
                Stmt::Macro(sm) => {
                    let n = sm.mac.path.segments.last().unwrap().ident.to_string();
                    match n.as_str() {
                        "println" | "eprintln" | "print" | "eprint" | "debug_assert" | "debug_assert_eq" => {
                            self.dropped.push(format!("{n}!"));
                        }
                        "vx_m" | "vx_h" => out.push(Stmt::Macro(sm)),
                        _ => {
                            let semi = sm.semi_token;
                            let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: sm.mac });
                            self.visit_expr_mut(&mut e);
                            out.push(Stmt::Expr(e, semi));
                        }
                    }
                }
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(it) => out.push(Stmt::Item(it)),
                mut s => {
                    if let Stmt::Local(l) = &mut s {
                        l.attrs.clear();
                    }
                    self.visit_stmt_mut(&mut s);
                    out.push(s);
                }
            }
            out.extend(after);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // pre-order rewrites
        match e {
            Expr::ForLoop(f) => {
                let f = f.clone();
                *e = self.for_loop(f);
                return;
            }
            Expr::While(w) => {
                let n = self.nloops;
                self.nloops += 1;
                let mut w = w.clone();
                w.attrs.clear();
                if let Expr::Let(_) = &*w.cond {
                    // while let P = E { B }  ->  loop { match E { P => B, _ => break } }
                    if let Expr::Let(l) = &*w.cond {
                        let (p, ex, body, lab) = ((*l.pat).clone(), (*l.expr).clone(), w.body.clone(), w.label.clone());
                        self.note_texts(&body);
                        let (pre, head, end, post) = self.loop_marks(n, String::new(), String::new());
                        let mut ex = ex;
                        self.visit_expr_mut(&mut ex);
                        let mut body = body;
                        self.visit_block_mut(&mut body);
                        let st = body.stmts;
                        *e = parse_quote!({ #(#pre)* #lab loop { #(#head)* if let #p = #ex { #(#st)* } else { break; } #(#end)* } #(#post)* });
                        return;
                    }
                }
                self.note_texts(&w.body);
                let (pre, head, end, post) = self.loop_marks(n, String::new(), String::new());
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let mut st = head;
                st.extend(std::mem::take(&mut w.body.stmts));
                st.extend(end);
                w.body.stmts = st;
                *e = parse_quote!({ #(#pre)* #w #(#post)* });
                return;
            }
            Expr::Loop(w) => {
                let n = self.nloops;
                self.nloops += 1;
                let mut w = w.clone();
                self.note_texts(&w.body);
                let (pre, head, end, post) = self.loop_marks(n, String::new(), String::new());
                self.visit_block_mut(&mut w.body);
                let mut st = head;
                st.extend(std::mem::take(&mut w.body.stmts));
                st.extend(end);
                w.body.stmts = st;
                *e = if pre.is_empty() && post.is_empty() { Expr::Loop(w) } else { parse_quote!({ #(#pre)* #w #(#post)* }) };
                return;
            }
            Expr::MethodCall(m) => {
                let m = m.clone();
                if let Some(r) = self.chain(&m) {
                    *e = r;
                    return;
                }
                if let Some(r) = self.option_closure(&m) {
                    *e = r;
                    self.visit_expr_mut(e);
                    return;
                }
                if let Expr::Path(p) = &*m.receiver {
                    if p.path.is_ident("self") && !self.opt("noinline") {
                        let args: Vec<Expr> = m.args.iter().cloned().collect();
                        if let Some(r) = self.try_inline(&m.method.to_string(), true, &args) {
                            *e = r;
                            self.depth += 1;
                            self.visit_expr_mut(e);
                            self.depth -= 1;
                            return;
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let mut path = p.path.clone();
                    shorten(&mut path);
                    let name = path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                    if name == "String::with_capacity" || name == "Vec::with_capacity" {
                        // capacity hints have no functional effect
                        self.dropped.push(format!("capacity hint `{}`", c.args.to_token_stream()));
                        *e = if name.starts_with('S') { parse_quote!(String::new()) } else { parse_quote!(Vec::new()) };
                        return;
                    }
                    if name.ends_with("e_bytes") && name.contains("::from_") && path.segments.len() == 2 && path.segments[0].ident.to_string().chars().next().unwrap().is_lowercase() {
                        // std function without a specification in vstd: its assumed contract is in the unit
                        let f = format_ident!("vx_{}_{}", path.segments[0].ident, path.segments[1].ident);
                        let mut a = c.args[0].clone();
                        self.visit_expr_mut(&mut a);
                        *e = parse_quote!(#f(#a));
                        return;
                    }
                    if name == "usize::from" && c.args.len() == 1 && self.opt("xmllits") {
                        let mut a = c.args[0].clone();
                        self.visit_expr_mut(&mut a);
                        *e = parse_quote!((#a).vx_usize());
                        return;
                    }
                    if name == "String::from" && c.args.len() == 1 {
                        let mut a = c.args[0].clone();
                        self.visit_expr_mut(&mut a);
                        *e = parse_quote!((#a).to_string());
                        return;
                    }
                    if !self.opt("noinline") && path.segments.last().map(|s| s.ident.to_string().chars().next().unwrap().is_lowercase()).unwrap_or(false) && !name.starts_with("vx_") {
                        let args: Vec<Expr> = c.args.iter().cloned().collect();
                        if let Some(r) = self.try_inline(&name, false, &args) {
                            *e = r;
                            self.depth += 1;
                            self.visit_expr_mut(e);
                            self.depth -= 1;
                            return;
                        }
                    }
                }
            }
            Expr::If(i) => {
                // D16: `if let Some(&x) = e` -> `if let Some(vx_x) = e { let x = *vx_x; .. }`
                if let Expr::Let(l) = &mut *i.cond {
                    let mut b = RefBind(vec![]);
                    b.visit_pat_mut(&mut l.pat);
                    for x in b.0.iter().rev() {
                        let v = Ident::new(&format!("vx_{x}"), x.span());
                        i.then_branch.stmts.insert(0, parse_quote!(let #x = *#v;));
                    }
                }
                // let-chains
                let i = i.clone();
                if let Some(n) = self.let_chain(&i) {
                    *e = n;
                    self.visit_expr_mut(e);
                    return;
                }
            }
            Expr::Match(m) => {
                let has_lit = m.arms.iter().any(|a| pat_has_str(&a.pat));
                if has_lit {
                    let m = m.clone();
                    *e = self.match_str(m);
                    self.visit_expr_mut(e);
                    return;
                }
            }
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                let ts = m.mac.tokens.clone();
                match n.as_str() {
                    "format" => {
                        let v = self.fresh("f");
                        match self.fmt_pushes(ts, parse_quote!(#v)) {
                            Ok(mut st) => {
                                // a text that starts with a literal starts as that literal
                                let first = if !self.opt("xmllits") { None } else { match st.first() { Some(Stmt::Expr(Expr::MethodCall(c), _)) if c.method == "push_str" => c.args.first().cloned(), _ => None } };
                                *e = match first {
                                    Some(l) => { st.remove(0); parse_quote!({ let mut #v = (#l).to_string(); #(#st)* #v }) }
                                    None => parse_quote!({ let mut #v = String::new(); #(#st)* #v }),
                                };
                                self.visit_expr_mut(e);
                            }
                            Err(x) => self.dropped.push(format!("format!: {x}")),
                        }
                        return;
                    }
                    "write" | "writeln" => {
                        // first arg is the target
                        let parser = |i: parse::ParseStream| -> Result<(Expr, TokenStream)> {
                            let t: Expr = i.parse()?;
                            i.parse::<Token![,]>()?;
                            Ok((t, i.parse()?))
                        };
                        if let Ok((t, rest)) = parser.parse2(ts) {
                            if let Ok(mut st) = self.fmt_pushes(rest, t.clone()) {
                                if n == "writeln" {
                                    let l = self.lit_expr("\n");
                                    st.push(parse_quote! { #t.push_str(#l); });
                                }
                                *e = parse_quote!({ #(#st)* vx_fmt_ok() });
                                self.visit_expr_mut(e);
                            }
                        }
                        return;
                    }
                    "matches" => {
                        let parser = |i: parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                            let t: Expr = i.parse()?;
                            i.parse::<Token![,]>()?;
                            let p = Pat::parse_multi_with_leading_vert(i)?;
                            let g = if i.peek(Token![if]) {
                                i.parse::<Token![if]>()?;
                                Some(i.parse()?)
                            } else {
                                None
                            };
                            let _ = i.parse::<Option<Token![,]>>()?;
                            Ok((t, p, g))
                        };
                        if let Ok((t, p, g)) = parser.parse2(ts) {
                            *e = match g {
                                Some(g) => parse_quote!(match #t { #p if #g => true, _ => false }),
                                None => parse_quote!(match #t { #p => true, _ => false }),
                            };
                            self.visit_expr_mut(e);
                        }
                        return;
                    }
                    "vec" => {
                        let parser = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                        if let Ok(args) = parser.parse2(ts) {
                            let a: Vec<Expr> = args.into_iter().map(|mut x| { self.visit_expr_mut(&mut x); x }).collect();
                            if a.is_empty() {
                                *e = parse_quote!(Vec::new());
                            } else {
                                *e = parse_quote!({ let mut vx_v = Vec::new(); #( vx_v.push(#a); )* vx_v });
                            }
                        }
                        return;
                    }
                    "println" | "eprintln" | "debug_assert" => {
                        self.dropped.push(format!("{n}!"));
                        *e = parse_quote!({});
                        return;
                    }
                    _ => return,
                }
            }
            Expr::Closure(_) => {}
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // post-order rewrites
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if (n == "into") && m.args.is_empty() && self.opt("into_string") {
                    let r = (*m.receiver).clone();
                    // a literal becomes a String (elsewhere `impl Into<String>` parameters are given as String)
                    let lit = is_str_lit(&r) || is_lit_call(&r);
                    *e = if lit { parse_quote!(#r.to_string()) } else { r };
                    return;
                }
                let arg_suffix = |m: &ExprMethodCall| -> &'static str {
                    match m.args.first() {
                        Some(Expr::Lit(ExprLit { lit: Lit::Char(_), .. })) => "_c",
                        Some(Expr::Closure(_)) => "_f",
                        Some(Expr::Array(_)) => "_cs",
                        _ => "",
                    }
                };
                if n == "parse" {
                    let t = m.turbofish.as_ref().map(|t| {
                        t.args.to_token_stream().to_string().replace(' ', "")
                    });
                    m.turbofish = None;
                    m.method = format_ident!("vx_parse_{}", t.unwrap_or_else(|| "any".into()));
                } else if n == "contains" && (self.opt("contains") || m.args.first().map(|a| matches!(a, Expr::Lit(ExprLit{lit: Lit::Str(_) | Lit::Char(_), ..})) || is_lit_call(a)).unwrap_or(false)) {
                    m.method = format_ident!("vx_contains{}", arg_suffix(m));
                } else if STR_METHODS.contains(&n.as_str()) && !self.opt(&format!("keep_{n}")) {
                    m.method = format_ident!("vx_{}{}", n, arg_suffix(m));
                    if let Some(a @ Expr::Array(_)) = m.args.first_mut() {
                        let x = a.clone();
                        *a = parse_quote!(&#x);
                    }
                } else if self.opt(&format!("remap_{n}")) {
                    m.method = format_ident!("vx_{}", n);
                }
            }
            // arithmetic of floating point numbers is left alone
            Expr::Binary(b) if self.opt("xmllits") && (is_float_lit(&b.left) || is_float_lit(&b.right)) && matches!(b.op, BinOp::Mul(_) | BinOp::Add(_) | BinOp::Sub(_) | BinOp::Div(_)) => {
                let (l, r) = (&b.left, &b.right);
                *e = parse_quote!((#l).vx_float_op(#r));
            }
            Expr::Binary(b) => {
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (self.opt("streq") && !is_num_lit(&b.right) && !is_num_lit(&b.left) || is_str_lit(&b.right) || is_str_lit(&b.left) || is_lit_call(&b.right) || is_lit_call(&b.left)) {
                    let (l, r) = (&b.left, &b.right);
                    let isref = matches!(&**r, Expr::Reference(x) if matches!(&*x.expr, Expr::Array(_)));
                    let r: Expr = if isref { (**r).clone() } else { parse_quote!(&(#r)) };
                    if matches!(b.op, BinOp::Eq(_)) {
                        *e = parse_quote!((#l).vx_eq(#r));
                    } else {
                        *e = parse_quote!(!((#l).vx_eq(#r)));
                    }
                }
            }
            Expr::Index(ix) => {
                if let Expr::Range(r) = &*ix.index {
                    if self.opt("strslice") {
                        let s = &ix.expr;
                        let (a, b) = (r.start.clone(), r.end.clone());
                        *e = match (a, b) {
                            (Some(a), Some(b)) => parse_quote!((*(#s).vx_str_range(#a, #b))),
                            (Some(a), None) => parse_quote!((*(#s).vx_str_from(#a))),
                            (None, Some(b)) => parse_quote!((*(#s).vx_str_to(#b))),
                            _ => e.clone(),
                        };
                    }
                }
            }
            // b".." is the array of its bytes
            Expr::Lit(ExprLit { lit: Lit::ByteStr(s), .. }) if self.opt("bytelit") => {
                let v = s.value();
                *e = parse_quote!(&[#(#v),*]);
            }
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                if self.lits.is_some() {
                    let v = s.value();
                    *e = self.lit_expr(&v);
                }
            }
            _ => {}
        }
    }
}

fn is_lit_call(e: &Expr) -> bool {
    matches!(e, Expr::Call(c) if c.args.is_empty() && c.func.to_token_stream().to_string().starts_with("vx_lit_"))
}

fn is_float_lit(e: &Expr) -> bool {
    matches!(e, Expr::Lit(ExprLit { lit: Lit::Float(_), .. }))
}
fn is_num_lit(e: &Expr) -> bool {
    matches!(e, Expr::Lit(ExprLit { lit: Lit::Int(_) | Lit::Float(_) | Lit::Bool(_) | Lit::Char(_) | Lit::Byte(_), .. }))
}

fn pat_has_str(p: &Pat) -> bool {
    match p {
        Pat::Lit(l) => matches!(l.lit, Lit::Str(_)),
        Pat::Or(o) => o.cases.iter().any(pat_has_str),
        Pat::Paren(x) => pat_has_str(&x.pat),
        Pat::TupleStruct(t) => t.elems.iter().any(pat_has_str),
        _ => false,
    }
}

impl<'a> Ctx<'a> {
    fn let_chain(&mut self, i: &ExprIf) -> Option<Expr> {
        // split cond on &&
        fn flat(e: &Expr, out: &mut Vec<Expr>) {
            match e {
                Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => {
                    flat(&b.left, out);
                    flat(&b.right, out);
                }
                e => out.push(e.clone()),
            }
        }
        let mut v = vec![];
        flat(&i.cond, &mut v);
        if v.len() < 2 || !v.iter().any(|e| matches!(e, Expr::Let(_))) {
            return None;
        }
        let then = i.then_branch.clone();
        let els: Option<Expr> = i.else_branch.as_ref().map(|(_, e)| (**e).clone());
        let mut cur: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block: then });
        for c in v.into_iter().rev() {
            let blk: Block = match cur {
                Expr::Block(b) => b.block,
                o => parse_quote!({ #o }),
            };
            cur = match &els {
                None => parse_quote!(if #c #blk),
                Some(el) => {
                    let eb: Block = match el {
                        Expr::Block(b) => b.block.clone(),
                        o => parse_quote!({ #o }),
                    };
                    parse_quote!(if #c #blk else #eb)
                }
            };
        }
        Some(cur)
    }
    fn match_str(&mut self, m: ExprMatch) -> Expr {
        let s = self.fresh("m");
        let scrut = &m.expr;
        let mut acc: Option<Expr> = None;
        for a in m.arms.iter().rev() {
            let body = &a.body;
            fn cond(p: &Pat, s: &Ident, binds: &mut Vec<Stmt>) -> Option<Expr> {
                match p {
                    Pat::Lit(l) => Some(parse_quote!(#s.vx_eq(#l))),
                    Pat::Or(o) => {
                        let mut c: Option<Expr> = None;
                        for x in &o.cases {
                            let k = cond(x, s, binds)?;
                            c = Some(match c {
                                None => k,
                                Some(p) => parse_quote!(#p || #k),
                            });
                        }
                        c
                    }
                    Pat::Paren(x) => cond(&x.pat, s, binds),
                    Pat::Ident(i) => {
                        binds.push(parse_quote! { let #i = #s; });
                        None
                    }
                    _ => None,
                }
            }
            let mut binds = vec![];
            let c = cond(&a.pat, &s, &mut binds);
            let c = match (&c, &a.guard) {
                (Some(c), Some((_, g))) => Some(parse_quote!((#c) && (#g))),
                (None, Some((_, g))) => Some((**g).clone()),
                (c, None) => c.clone(),
            };
            acc = Some(match (c, acc) {
                (None, _) => parse_quote!({ #(#binds)* #body }),
                (Some(c), None) => parse_quote!(if #c { #(#binds)* #body } else { vx_unreachable() }),
                (Some(c), Some(r)) => parse_quote!(if #c { #(#binds)* #body } else { #r }),
            });
        }
        let r = acc.unwrap();
        parse_quote!({ let #s = #scrut; #r })
    }
}

#[allow(unused)]
fn _t(_: TokenTree) {}

/// replaces `&x` in a pattern by the binder `vx_x`
struct RefBind(Vec<Ident>);
impl VisitMut for RefBind {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if let Pat::Ident(i) = &*r.pat {
                let x = i.ident.clone();
                let v = Ident::new(&format!("vx_{x}"), x.span());
                self.0.push(x);
                *p = parse_quote!(#v);
                return;
            }
        }
        syn::visit_mut::visit_pat_mut(self, p);
    }
}

/// `x.iter().take(n)` and `x.iter().skip(n)`: over that part of x
pub struct Parts;
impl VisitMut for Parts {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        let Expr::MethodCall(m) = e else { return };
        let f = match m.method.to_string().as_str() {
            "take" => format_ident!("vx_part_to"),
            "skip" => format_ident!("vx_part_from"),
            _ => return,
        };
        let Expr::MethodCall(i) = &*m.receiver else { return };
        if i.method != "iter" || !i.args.is_empty() || m.args.len() != 1 {
            return;
        }
        let (x, n) = (&i.receiver, &m.args[0]);
        *e = parse_quote!(#x.#f(#n).iter());
    }
}
/// `let it = <iterator>;` used once, by a `for`: put in its place
pub fn inline_iters(b: &mut Block) {
    use quote::ToTokens;
    let mut k = 0;
    while k < b.stmts.len() {
        if let Stmt::Local(Local { pat: Pat::Ident(p), init: Some(init), .. }) = &b.stmts[k] {
            let id = p.ident.clone();
            let lazy = init.diverge.is_none() && matches!(&*init.expr, Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "iter" | "filter" | "enumerate") );
            let rest: TokenStream = b.stmts[k + 1..].iter().map(|s| s.to_token_stream()).collect();
            fn count(ts: TokenStream, id: &Ident) -> usize {
                ts.into_iter()
                    .map(|t| match t {
                        TokenTree::Group(g) => count(g.stream(), id),
                        TokenTree::Ident(i) => (i == *id) as usize,
                        TokenTree::Literal(l) => l.to_string().contains(&format!("{{{id}}}")) as usize,
                        _ => 0,
                    })
                    .sum()
            }
            if lazy && count(rest, &id) == 1 {
                struct Put(Ident, Expr, bool);
                impl VisitMut for Put {
                    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
                        let mut e = &mut *f.expr;
                        loop {
                            match e {
                                Expr::MethodCall(m) => e = &mut m.receiver,
                                Expr::Path(p) if p.path.is_ident(&self.0) => {
                                    *e = self.1.clone();
                                    self.2 = true;
                                    return;
                                }
                                _ => break,
                            }
                        }
                        syn::visit_mut::visit_expr_for_loop_mut(self, f);
                    }
                }
                let mut put = Put(id, (*init.expr).clone(), false);
                for s in &mut b.stmts[k + 1..] {
                    put.visit_stmt_mut(s);
                }
                if put.2 {
                    b.stmts.remove(k);
                    continue;
                }
            }
        }
        k += 1;
    }
}
