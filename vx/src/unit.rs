use crate::desugar::{Ctx, LoopSpec};
use crate::index::Index;
use crate::print::print;
use crate::serde_free::Entry;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub qual: String,
    pub path: Option<String>,
    pub tr: Option<String>,
    pub ret: String,
    pub keys: BTreeMap<String, String>,
    pub loops: BTreeMap<usize, LoopSpec>,
    pub subs: Vec<(String, String)>,
}
#[derive(Default, Clone, Debug)]
pub struct TySpec {
    pub name: String,
    pub path: Option<String>,
    pub derive: String,
    pub only: Option<Vec<String>>,
    pub retype: BTreeMap<String, String>,
}
pub enum Seg {
    Raw(String),
    Fn(FnSpec),
    Ty(TySpec),
    Const(String, Option<String>),
}
pub struct Unit {
    pub segs: Vec<Seg>,
    pub known: BTreeSet<String>,
    pub opts: BTreeSet<String>,
    pub lits: bool,
    pub vacuity: bool,
    pub stubs: BTreeSet<String>,
}
pub enum EmitErr {
    Lost(String),
    Unsupported(String),
}

fn split_path(s: &str) -> (Option<String>, String) {
    match s.split_once('|') {
        Some((p, q)) => (Some(p.to_string()), q.to_string()),
        None => (None, s.to_string()),
    }
}

impl Unit {
    pub fn parse(text: &str, dir: &std::path::Path) -> Unit {
        let mut u = Unit { segs: vec![], known: BTreeSet::new(), opts: BTreeSet::new(), lits: false, vacuity: false, stubs: BTreeSet::new() };
        u.parse_into(text, dir);
        u
    }
    fn parse_into(&mut self, text: &str, dir: &std::path::Path) {
        let mut raw = String::new();
        let mut lines = text.lines().peekable();
        while let Some(l) = lines.next() {
            let t = l.trim_start();
            if !t.starts_with("//@") {
                raw.push_str(l);
                raw.push('\n');
                continue;
            }
            let d = t[3..].trim();
            let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            match cmd {
                "include" => {
                    self.segs.push(Seg::Raw(std::mem::take(&mut raw)));
                    let t = std::fs::read_to_string(dir.join(rest)).unwrap_or_else(|e| panic!("include {rest}: {e}"));
                    self.parse_into(&expand_lits(&t), dir);
                }
                "known" => self.known.extend(rest.split(',').map(|s| s.trim().to_string())),
                "opt" => self.opts.extend(rest.split(',').map(|s| s.trim().to_string())),
                "lits" => self.lits = true,
                "const" => {
                    self.segs.push(Seg::Raw(std::mem::take(&mut raw)));
                    let (p, n) = split_path(rest);
                    self.segs.push(Seg::Const(n, p));
                }
                "type" => {
                    self.segs.push(Seg::Raw(std::mem::take(&mut raw)));
                    let mut w = rest.split_whitespace();
                    let (path, name) = split_path(w.next().unwrap());
                    let mut ts = TySpec { name, path, ..Default::default() };
                    while let Some(k) = w.next() {
                        match k {
                            "derive" => ts.derive = w.next().unwrap_or("").to_string(),
                            "only" => ts.only = Some(w.next().unwrap_or("").split(',').map(|s| s.to_string()).collect()),
                            "retype" => {
                                let x = w.next().unwrap();
                                let (f, t) = x.split_once('=').unwrap();
                                ts.retype.insert(f.into(), t.into());
                            }
                            _ => panic!("bad type directive {rest}"),
                        }
                    }
                    self.known.insert(ts.name.clone());
                    self.segs.push(Seg::Ty(ts));
                }
                "fn" => {
                    self.segs.push(Seg::Raw(std::mem::take(&mut raw)));
                    let mut w = rest.split_whitespace();
                    let (path, qual) = split_path(w.next().unwrap());
                    let mut fs = FnSpec { qual, path, ret: "vx_ret".into(), ..Default::default() };
                    if w.next() == Some("trait") {
                        fs.tr = w.next().map(|s| s.to_string());
                    }
                    let mut key = String::new();
                    loop {
                        let l = match lines.next() {
                            Some(l) => l,
                            None => panic!("unterminated //@fn {}", fs.qual),
                        };
                        let t = l.trim_start();
                        let t = t.strip_prefix("//@").unwrap_or_else(|| panic!("line in //@fn {} block lacks //@: {l}", fs.qual));
                        if t.trim() == "end" {
                            break;
                        }
                        let tt = t.trim();
                        let mut handled = false;
                        if let Some((k, v)) = tt.split_once(':') {
                            let kk: Vec<&str> = k.split(' ').collect();
                            let ok = matches!(kk.as_slice(),
                                ["ret"] | ["requires"] | ["ensures"] | ["attr"] | ["begin"] | ["end"] | ["decreases"] | ["opt"] | ["rename"] | ["sub"] | ["optional"] | ["sig"] | ["header"])
                                || (kk.len() == 3 && kk[0] == "loop" && kk[1].parse::<usize>().is_ok())
                                || (kk.len() == 3 && kk[0] == "stmt");
                            if ok && !v.starts_with(':') {
                                key = k.to_string();
                                handled = true;
                                add(&mut fs, &key, v.trim());
                            }
                        }
                        if !handled {
                            add(&mut fs, &key, tt);
                        }
                    }
                    self.known.insert(fs.qual.clone());
                    self.segs.push(Seg::Fn(fs));
                }
                _ => panic!("unknown directive {l}"),
            }
        }
        self.segs.push(Seg::Raw(raw));
    }
}

fn add(fs: &mut FnSpec, key: &str, v: &str) {
    if v.is_empty() {
        return;
    }
    let kk: Vec<&str> = key.split(' ').collect();
    if kk.len() == 3 && kk[0] == "loop" {
        let l = fs.loops.entry(kk[1].parse().unwrap()).or_default();
        let f = match kk[2] {
            "inv" => &mut l.inv,
            "dec" => &mut l.dec,
            "pre" => &mut l.pre,
            "begin" => &mut l.begin,
            "end" => &mut l.end,
            "post" => &mut l.post,
            "ens" => &mut l.ens,
            x => panic!("loop key {x}"),
        };
        f.push_str(v);
        f.push('\n');
        return;
    }
    if key == "ret" {
        fs.ret = v.to_string();
        return;
    }
    if key == "sub" {
        let (a, b) = v.split_once("=>>").expect("sub needs =>>");
        fs.subs.push((a.trim().to_string(), b.trim().to_string()));
        return;
    }
    let e = fs.keys.entry(key.to_string()).or_default();
    e.push_str(v);
    e.push('\n');
}

fn clean_derive(it: &mut Item) {
    match it {
        Item::Struct(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = parse_quote!(pub);
            }
        }
        Item::Enum(e) => {
            e.attrs.clear();
            e.vis = parse_quote!(pub);
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
        }
        _ => {}
    }
}

struct Shorten;
impl VisitMut for Shorten {
    fn visit_path_mut(&mut self, p: &mut Path) {
        let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
        if first == "crate" || first == "super" || (first == "self" && p.segments.len() > 1) {
            let l = p.segments.last().unwrap().clone();
            p.leading_colon = None;
            p.segments = std::iter::once(l).collect();
        }
        syn::visit_mut::visit_path_mut(self, p);
    }
}

/// substitute a token sequence (used by `sub:` directives)
fn subst(ts: proc_macro2::TokenStream, pat: &[String], rep: &proc_macro2::TokenStream, hits: &mut usize) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, TokenTree};
    let v: Vec<TokenTree> = ts.into_iter().collect();
    // flatten compare on strings
    let strs: Vec<String> = v.iter().map(|t| t.to_string().split_whitespace().collect::<String>()).collect();
    let mut out = proc_macro2::TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if i + pat.len() <= v.len() && (0..pat.len()).all(|k| strs[i + k] == pat[k]) {
            out.extend(rep.clone());
            *hits += 1;
            i += pat.len();
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let inner = subst(g.stream(), pat, rep, hits);
                let mut ng = Group::new(g.delimiter(), inner);
                ng.set_span(g.span());
                out.extend(std::iter::once(TokenTree::Group(ng)));
            }
            t => out.extend(std::iter::once(t.clone())),
        }
        i += 1;
    }
    out
}

pub fn emit(u: &Unit, idx: &Index, out: &mut String, map: &mut BTreeMap<String, Entry>) -> std::result::Result<(), EmitErr> {
    let mut auto: Vec<String> = vec![];
    let mut lits: BTreeMap<String, usize> = BTreeMap::new();
    let mut dropped_fields: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for s in &u.segs {
        match s {
            Seg::Raw(t) => out.push_str(t),
            Seg::Const(n, p) => {
                let c = idx.find_const(n, p.as_deref()).map_err(EmitErr::Lost)?;
                let mut item = c.item.clone();
                item.attrs.clear();
                item.vis = parse_quote!(pub);
                let mut it = Item::Const(item);
                Shorten.visit_item_mut(&mut it);
                // a list of texts becomes a function that builds it, text by text
                if let Some(ts) = text_list(&it) {
                    let ks: Vec<usize> = ts.iter().map(|t| { let n = lits.len(); *lits.entry(t.clone()).or_insert(n) }).collect();
                    let ens: Vec<String> = ks.iter().enumerate().map(|(i, k)| format!("r@[{i}]@ == VXL_{k}()")).collect();
                    let body: Vec<String> = ks.iter().map(|k| format!("v.push(vx_lit_{k}());")).collect();
                    let n = n.rsplit("::").next().unwrap();
                    out.push_str(&format!("pub fn vx_strs_{n}() -> (r: Vec<&'static str>) ensures r@.len() == {}, {} {{ let mut v = Vec::new(); {} v }}\n", ts.len(), ens.join(", "), body.join(" ")));
                    continue;
                }
                // as does a list of pairs of texts
                if let Some(ps) = pair_list(&it) {
                    let mut k = |t: &String| { let n = lits.len(); *lits.entry(t.clone()).or_insert(n) };
                    let ks: Vec<(usize, usize)> = ps.iter().map(|(a, b)| (k(a), k(b))).collect();
                    let ens: Vec<String> = ks.iter().enumerate().map(|(i, (a, b))| format!("r@[{i}].0@ == VXL_{a}(), r@[{i}].1@ == VXL_{b}()")).collect();
                    let body: Vec<String> = ks.iter().map(|(a, b)| format!("v.push((vx_lit_{a}(), vx_lit_{b}()));")).collect();
                    out.push_str(&format!("pub fn vx_strs_{n}() -> (r: Vec<(&'static str, &'static str)>) ensures r@.len() == {}, {} {{ let mut v = Vec::new(); {} v }}\n", ps.len(), ens.join(", "), body.join(" ")));
                    continue;
                }
                if let Some((ty, _)) = n.split_once("::") {
                    out.push_str(&format!("impl {ty} {{ {} }}\n", print(it.to_token_stream(), &[])));
                } else {
                    out.push_str(&print(it.to_token_stream(), &[]));
                }
            }
            Seg::Ty(ts) => {
                let t = idx.find_type(&ts.name, ts.path.as_deref()).map_err(EmitErr::Lost)?;
                let mut it = t.item.clone();
                clean_derive(&mut it);
                Shorten.visit_item_mut(&mut it);
                let mut e = Entry { file: t.file.clone(), line: t.line, ..Default::default() };
                if let Item::Struct(st) = &mut it {
                    if let Fields::Named(f) = &mut st.fields {
                        let mut dropped = vec![];
                        let keep: Vec<Field> = f
                            .named
                            .iter()
                            .filter(|x| {
                                let n = x.ident.as_ref().unwrap().to_string();
                                let k = ts.only.as_ref().map(|o| o.contains(&n)).unwrap_or(true);
                                if !k {
                                    dropped.push(n);
                                }
                                k
                            })
                            .cloned()
                            .collect();
                        if let Some(o) = &ts.only {
                            for w in o {
                                if !f.named.iter().any(|x| x.ident.as_ref().unwrap() == w) {
                                    return Err(EmitErr::Lost(format!("field {}.{w}", ts.name)));
                                }
                            }
                        }
                        f.named = keep.into_iter().collect();
                        for x in f.named.iter_mut() {
                            if let Some(t) = ts.retype.get(&x.ident.as_ref().unwrap().to_string()) {
                                x.ty = parse_str(t).unwrap();
                            }
                        }
                        if !dropped.is_empty() {
                            e.dropped.push(format!("fields {}", dropped.join(",")));
                            dropped_fields.insert(ts.name.clone(), dropped.into_iter().collect());
                        }
                    }
                }
                if !ts.derive.is_empty() {
                    out.push_str(&format!("#[derive({})]\n", ts.derive));
                }
                out.push_str(&print(it.to_token_stream(), &[]));
                map.insert(format!("type {}", ts.name), e);
            }
            Seg::Fn(fs) => {
                emit_fn(u, idx, fs, out, map, &mut auto, &mut lits, &dropped_fields)?;
            }
        }
    }
    // uncontracted helpers that could not be inlined
    let mut done: BTreeSet<String> = BTreeSet::new();
    let mut extra = String::new();
    while let Some(q) = auto.pop() {
        if !done.insert(q.clone()) || u.known.contains(&q) {
            continue;
        }
        let fs = FnSpec { qual: q, ret: "vx_ret".into(), ..Default::default() };
        emit_fn(u, idx, &fs, &mut extra, map, &mut auto, &mut lits, &dropped_fields)?;
    }
    let mut l = String::new();
    let mut texts: BTreeMap<String, String> = TEXTS.with(|m| m.borrow().clone());
    let xml = u.opts.contains("xmllits");
    let opaque = !texts.is_empty() || xml;
    if u.lits {
        for (s, n) in &lits {
            let cs: Vec<String> = s.chars().map(|c| format!("{:?}", c)).collect();
            if opaque && !cs.is_empty() {
                texts.insert(s.clone(), cs.join(","));
                l.push_str(&format!("pub open spec fn VXL_{n}() -> Seq<char> {{ {}() }}\n#[verifier::external_body] pub fn vx_lit_{n}() -> (r: &'static str) ensures r@ == VXL_{n}() {{ {:?} }}\n", text_name(s), s));
                continue;
            }
            l.push_str(&format!(
                "{}pub open spec fn VXL_{n}() -> Seq<char> {{ seq![{}] }}\n#[verifier::external_body] pub fn vx_lit_{n}() -> (r: &'static str) ensures r@ == VXL_{n}() {{ {:?} }}\n",
                // the characters of a long text are only seen where they are asked for
                if cs.len() > 200 { "#[verifier::opaque] " } else { "" },
                cs.join(","),
                s
            ));
        }
    }
    // a long text is a chain of short ones
    let mut chains: BTreeMap<String, Vec<String>> = Default::default();
    if xml {
        for t in texts.keys().filter(|t| t.chars().count() > 600).cloned().collect::<Vec<_>>() {
            let mut v = vec![String::new()];
            let mut last = ' ';
            for c in t.chars() {
                if c == '<' && last == '>' && v.last().is_some_and(|x| x.len() > 300) {
                    v.push(String::new());
                }
                v.last_mut().unwrap().push(c);
                if !c.is_whitespace() {
                    last = c;
                }
            }
            texts.remove(&t);
            for x in &v {
                texts.insert(x.clone(), x.chars().map(|c| format!("{c:?}")).collect::<Vec<_>>().join(","));
            }
            let parts = v.iter().map(|x| format!("{}()", text_name(x))).collect::<Vec<_>>();
            l.push_str(&format!("pub open spec fn {}() -> Seq<char> {{ {} }}\n", text_name(&t), parts.join(" + ")));
            chains.insert(t, v);
        }
    }
    let pieces: BTreeSet<String> = chains.values().flatten().cloned().collect();
    for (t, cs) in &texts {
        l.push_str(&format!("#[verifier::opaque] pub open spec fn {}() -> Seq<char> {{ seq![{cs}] }}\n", text_name(t)));
    }
    if xml {
        let (mut names, mut group, mut fx) = (BTreeMap::new(), vec![], String::new());
        let mut of: BTreeMap<String, Vec<String>> = Default::default();
        for (t, _) in &texts {
            let mut g = vec![];
            fx.push_str(&crate::xmlfx::effects(t, &format!("{}()", text_name(t)), &mut names, &mut g));
            of.insert(t.clone(), g.clone());
            // a function is told only of the texts it uses
            match lits.get(t) {
                Some(n) => {
                    g.push("lemma_run_empty".to_string());
                    fx.push_str(&format!("pub broadcast group l_{n} {{ {} }}\n", g.join(", ")));
                }
                None if pieces.contains(t) => {}
                None => group.extend(g),
            }
        }
        for (t, v) in &chains {
            if let Some(n) = lits.get(t) {
                fx.push_str(&format!("pub broadcast group l_{n} {{ {} }}\n", v.iter().flat_map(|x| of.get(x).cloned().unwrap_or_default()).collect::<BTreeSet<_>>().into_iter().chain(["lemma_run_empty".to_string()]).collect::<Vec<_>>().join(", ")));
            }
        }
        group.push("lemma_run_empty".to_string());
        for (n, f) in names.iter().filter(|n| !texts.contains_key(n.0)) {
            let cs: Vec<String> = n.chars().map(|c| format!("{c:?}")).collect();
            l.push_str(&format!("#[verifier::opaque] pub open spec fn {f}() -> Seq<char> {{ seq![{}] }}\n", cs.join(",")));
        }
        l.push_str(&format!("mod vx_x {{ use vstd::prelude::*; use crate::vx_xm::*; use crate::*; verus! {{\n{fx}pub broadcast group effects {{ {} }}\n}} }}\n", group.join(", ")));
    }
    // the last raw segment closes verus!{}; extras are spliced at the marker
    let marker = "//%extras";
    if out.contains(marker) {
        *out = out.replacen(marker, &format!("{extra}\n{l}"), 1);
    } else if !extra.is_empty() || !l.is_empty() {
        return Err(EmitErr::Unsupported("unit has no //%extras marker".into()));
    }
    Ok(())
}

fn emit_fn(
    u: &Unit,
    idx: &Index,
    fs: &FnSpec,
    out: &mut String,
    map: &mut BTreeMap<String, Entry>,
    auto: &mut Vec<String>,
    lits: &mut BTreeMap<String, usize>,
    dropped_fields: &BTreeMap<String, BTreeSet<String>>,
) -> std::result::Result<(), EmitErr> {
    let f = match idx.find_fn(&fs.qual, fs.path.as_deref(), fs.tr.as_deref()) {
        Ok(f) => f,
        Err(e) => {
            if fs.keys.contains_key("optional") {
                return Ok(());
            }
            return Err(EmitErr::Lost(e));
        }
    };
    let mut table: Vec<String> = vec![];
    let mut opts: BTreeSet<String> = u.opts.clone();
    if let Some(o) = fs.keys.get("opt") {
        opts.extend(o.split([',', '\n']).map(|s| s.trim().to_string()).filter(|s| !s.is_empty()));
    }
    let mut sig = f.sig.clone();
    // impl Into<String> parameters are instantiated at String
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            t.attrs.clear();
            let s = t.ty.to_token_stream().to_string().replace(' ', "");
            if s.contains("implInto<String>") || s == "implAsRef<str>" {
                *t.ty = if s.contains("Into") { parse_quote!(String) } else { parse_quote!(&str) };
                opts.insert("into_string".into());
            }
        }
    }
    Shorten.visit_signature_mut(&mut sig);
    let mut block = f.block.clone();
    let mut dropped = vec![];
    // under xmllits a writer that gives itself back (`&mut Self`) gives nothing back
    if u.opts.contains("xmllits") && sig.output.to_token_stream().to_string().replace(' ', "") == "->&mutSelf" {
        sig.output = ReturnType::Default;
        if let Some(Stmt::Expr(e, None)) = block.stmts.last() {
            if e.to_token_stream().to_string() == "self" {
                block.stmts.pop();
                dropped.push("the writer itself as the value returned".to_string());
            }
        }
    }
    // D15: `mut self` by value -> a mutable local
    let mut self_mut = false;
    if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            self_mut = true;
        }
    }
    if self_mut {
        struct SelfRen;
        impl VisitMut for SelfRen {
            fn visit_ident_mut(&mut self, i: &mut Ident) {
                if i == "self" {
                    *i = Ident::new("vx_self", i.span());
                }
            }
            fn visit_macro_mut(&mut self, m: &mut Macro) {
                fn go(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
                    ts.into_iter()
                        .map(|t| match t {
                            proc_macro2::TokenTree::Ident(i) if i == "self" => proc_macro2::TokenTree::Ident(Ident::new("vx_self", i.span())),
                            proc_macro2::TokenTree::Group(g) => {
                                let mut n = proc_macro2::Group::new(g.delimiter(), go(g.stream()));
                                n.set_span(g.span());
                                proc_macro2::TokenTree::Group(n)
                            }
                            t => t,
                        })
                        .collect()
                }
                m.tokens = go(m.tokens.clone());
            }
        }
        SelfRen.visit_block_mut(&mut block);
        block.stmts.insert(0, parse_quote!(let mut vx_self = self;));
    }
    for (a, b) in &fs.subs {
        let pat: proc_macro2::TokenStream = a.parse().map_err(|_| EmitErr::Unsupported(format!("sub pattern {a} in fn {}", fs.qual)))?;
        let pat: Vec<String> = pat.into_iter().map(|t| t.to_string().split_whitespace().collect::<String>()).collect();
        let rep: proc_macro2::TokenStream = b.parse().map_err(|_| EmitErr::Unsupported(format!("sub rep {b} in fn {}", fs.qual)))?;
        let mut hits = 0;
        let ts = subst(block.to_token_stream(), &pat, &rep, &mut hits);
        block = parse2(ts).map_err(|e| EmitErr::Unsupported(format!("sub result: {e} in fn {}", fs.qual)))?;
        dropped.push(format!("`{a}` replaced by `{b}` ({hits} places)"));
    }
    // a constant text of the crate is the text
    if u.lits {
        // those of the function itself first
        struct Locals(BTreeMap<String, Expr>, bool);
        impl VisitMut for Locals {
            fn visit_block_mut(&mut self, b: &mut Block) {
                for s in &mut b.stmts {
                    let Stmt::Item(Item::Const(c)) = s else { continue };
                    if matches!(&*c.expr, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) {
                        self.0.insert(c.ident.to_string(), (*c.expr).clone());
                    }
                    if self.1 {
                        let (i, e) = (&c.ident, &c.expr);
                        *s = match &*c.ty {
                            Type::Array(_) => parse_quote!(let #i = #e;),
                            t => parse_quote!(let #i: #t = #e;),
                        };
                    }
                }
                syn::visit_mut::visit_block_mut(self, b);
            }
        }
        let mut locals = Locals(Default::default(), opts.contains("xmllits"));
        locals.visit_block_mut(&mut block);
        struct ConstTexts<'x>(&'x Index, &'x str, &'x Unit, BTreeMap<String, Expr>);
        impl<'x> ConstTexts<'x> {
            fn text(&self, id: &str) -> Option<Expr> {
                if let Some(e) = self.3.get(id) {
                    return Some(e.clone());
                }
                if !id.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit()) || self.2.segs.iter().any(|s| matches!(s, Seg::Const(n, _) if *n == id)) {
                    return None;
                }
                let c = self.0.find_const(id, Some(self.1)).or_else(|_| self.0.find_const(id, None)).ok()?;
                matches!(&*c.item.expr, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })).then(|| (*c.item.expr).clone())
            }
            fn tokens(&self, ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
                use proc_macro2::{Group, TokenTree};
                ts.into_iter()
                    .flat_map(|t| match t {
                        TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), self.tokens(g.stream()))).into(),
                        TokenTree::Ident(i) => match self.text(&i.to_string()) {
                            Some(e) => e.to_token_stream(),
                            None => TokenTree::Ident(i).into(),
                        },
                        t => proc_macro2::TokenStream::from(t),
                    })
                    .collect()
            }
        }
        impl<'x> VisitMut for ConstTexts<'x> {
            fn visit_macro_mut(&mut self, m: &mut Macro) {
                m.tokens = self.tokens(std::mem::take(&mut m.tokens));
            }
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                syn::visit_mut::visit_expr_mut(self, e);
                let Expr::Path(p) = e else { return };
                let Some(id) = p.path.get_ident().map(|i| i.to_string()) else { return };
                if let Some(t) = self.text(&id) {
                    *e = t;
                }
            }
        }
        ConstTexts(idx, &f.file, u, locals.0).visit_block_mut(&mut block);
        if opts.contains("xmllits") {
            crate::desugar::Parts.visit_block_mut(&mut block);
            crate::desugar::inline_iters(&mut block);
        }
    }
    // `opt dc_<method>`: closures given to <method> are left out (its contract holds for every closure)
    let dc: BTreeSet<String> = opts.iter().filter_map(|o| o.strip_prefix("dc_").map(|x| x.to_string())).collect();
    if !dc.is_empty() {
        struct DropC<'x>(&'x BTreeSet<String>, Vec<String>);
        impl<'x> VisitMut for DropC<'x> {
            fn visit_expr_method_call_mut(&mut self, e: &mut syn::ExprMethodCall) {
                if self.0.contains(&e.method.to_string()) {
                    let n = e.args.len();
                    e.args = e.args.iter().filter(|a| !matches!(a, Expr::Closure(_))).cloned().collect();
                    if e.args.len() < n {
                        self.1.push(format!("closure given to `{}`", e.method));
                    }
                }
                syn::visit_mut::visit_expr_method_call_mut(self, e);
            }
        }
        let mut d = DropC(&dc, vec![]);
        d.visit_block_mut(&mut block);
        dropped.extend(d.1);
    }
    let mut cx = Ctx {
        table: &mut table,
        loops: fs.loops.clone(),
        nloops: 0,
        opts,
        known: &u.known,
        idx,
        me: f,
        dropped,
        inlined: vec![],
        auto: vec![],
        tmp: 0,
        depth: 0,
        lits: if u.lits { Some(lits) } else { None },
        snaps: vec![],
    };
    cx.visit_block_mut(&mut block);
    // dropped struct fields in constructors
    if !dropped_fields.is_empty() {
        struct DropF<'x>(&'x BTreeMap<String, BTreeSet<String>>, String);
        impl<'x> VisitMut for DropF<'x> {
            fn visit_expr_struct_mut(&mut self, e: &mut ExprStruct) {
                let mut n = e.path.segments.last().unwrap().ident.to_string();
                if n == "Self" {
                    n = self.1.clone();
                }
                if let Some(d) = self.0.get(&n) {
                    e.fields = e
                        .fields
                        .iter()
                        .filter(|f| !d.contains(&f.member.to_token_stream().to_string()))
                        .cloned()
                        .collect();
                }
                syn::visit_mut::visit_expr_struct_mut(self, e);
            }
        }
        let st = f.self_ty.as_ref().map(crate::index::type_key).unwrap_or_default();
        DropF(dropped_fields, st).visit_block_mut(&mut block);
    }
    let g = |k: &str| fs.keys.get(k).map(|s| s.trim().to_string()).unwrap_or_default();
    let mut head = String::new();
    for k in ["requires", "ensures", "decreases"] {
        let v = g(k);
        if u.vacuity && k == "ensures" && !v.is_empty() {
            head.push_str(&format!("ensures {}{} vx_vac({})\n", v, if v.trim_end().ends_with(',') { "" } else { "," }, map.len()));
            continue;
        }
        if !v.is_empty() {
            head.push_str(&format!("{k} {v}\n"));
        }
    }
    let h = cx.mark("vx_h", &head);
    let mut stmts = vec![h];
    if u.opts.contains("xmllits") {
        stmts.push(cx.mark("vx_m", "broadcast use xml_rules;"));
    }
    if !g("begin").is_empty() {
        stmts.push(cx.mark("vx_m", &g("begin")));
    }
    let unit_ret = matches!(sig.output, ReturnType::Default);
    if !g("end").is_empty() {
        let m = cx.mark("vx_m", &g("end"));
        let mut b = block.stmts.clone();
        let tail_is_expr = matches!(b.last(), Some(Stmt::Expr(_, None)));
        if tail_is_expr && !unit_ret {
            if let Some(Stmt::Expr(e, None)) = b.pop() {
                stmts.extend(b);
                // simple `vx_r` name for the value about to be returned
                stmts.push(parse_quote! { let vx_r = #e; });
                stmts.push(m);
                stmts.push(Stmt::Expr(parse_quote!(vx_r), None));
            }
        } else {
            if let Some(Stmt::Expr(e, None)) = b.last().cloned() {
                b.pop();
                b.push(parse_quote! { #e; });
            }
            stmts.extend(b);
            stmts.push(m);
        }
    } else {
        stmts.extend(block.stmts.clone());
    }
    let e = Entry {
        file: f.file.clone(),
        line: f.line,
        contract: !g("ensures").is_empty(),
        requires: !g("requires").is_empty(),
        dropped: cx.dropped.clone(),
        inlined: cx.inlined.clone(),
    };
    auto.extend(cx.auto.clone());
    drop(cx);
    let lit_empty = lits.get("").copied();
    let body: proc_macro2::TokenStream = quote! { { #(#stmts)* } };
    // signature text
    let name = if g("rename").is_empty() { sig.ident.to_string() } else { g("rename") };
    let gen = print(sig.generics.to_token_stream(), &[]);
    let wh = sig.generics.where_clause.as_ref().map(|w| print(w.to_token_stream(), &[])).unwrap_or_default();
    let ins = print(sig.inputs.to_token_stream(), &[]);
    let ret = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => format!(" -> ({}: {})", fs.ret, print(t.to_token_stream(), &[])),
    };
    let ret = if g("sig").is_empty() { ret } else { format!(" -> {}", g("sig")) };
    let mut attr = g("attr");
    if u.opts.contains("xmllits") {
        attr.push_str(" #[verifier::loop_isolation(false)] #[verifier::spinoff_prover]");
    }
    let bodytxt = if u.stubs.contains(&fs.qual) {
        attr.push_str(" #[verifier::external_body]");
        format!("{head} {{ unimplemented!() }}")
    } else {
        let text = print(body, &table);
        let mut used: BTreeSet<usize> = BTreeSet::new();
        for (i, m) in text.match_indices("vx_lit_") {
            let d: String = text[i + m.len()..].chars().take_while(|c| c.is_ascii_digit()).collect();
            used.extend(d.parse::<usize>().ok());
        }
        let empty = lit_empty;
        let gs: String = used.iter().filter(|n| Some(**n) != empty).map(|n| format!(", vx_x::l_{n}")).collect();
        text.replacen("broadcast use xml_rules;", &format!("broadcast use {{xml_rules{gs}}};"), 1)
    };
    let constness = if sig.constness.is_some() { "const " } else { "" };
    let _ = constness;
    // `header:` gives the parameters and the return type (a generic reader or writer
    // becomes its stand-in); the body stays the extracted one
    let sigtxt = if g("header").is_empty() { format!("{gen}({ins}){ret} {wh}") } else { format!("{} ", g("header")) };
    let text = format!("// VXFN {} {}:{}\n{attr}\npub fn {name}{sigtxt}{bodytxt}\n// VXEND", fs.qual, f.file, f.line);
    if let Some(st) = &f.self_ty {
        let mut st2 = st.clone();
        Shorten.visit_type_mut(&mut st2);
        let ig = f.generics.as_ref().map(|g| print(g.to_token_stream(), &[])).unwrap_or_default();
        let iw = f.generics.as_ref().and_then(|g| g.where_clause.as_ref()).map(|w| print(w.to_token_stream(), &[])).unwrap_or_default();
        out.push_str(&format!("impl{ig} {} {iw} {{\n{text}\n}}\n", print(st2.to_token_stream(), &[])));
    } else {
        out.push_str(&text);
        out.push('\n');
    }
    map.insert(format!("fn {}", fs.qual), e);
    Ok(())
}

thread_local! { static TEXTS: std::cell::RefCell<BTreeMap<String, String>> = Default::default(); }
pub fn text_name(t: &str) -> String {
    let h = t.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    format!("vxs_{h:016x}")
}

/// `S"text"` in a unit file (contracts only) is the sequence of these characters
pub fn expand_lits(t: &str) -> String {
    let c: Vec<char> = t.chars().collect();
    // with opaque texts, a text of a contract and the same text in the code share one name
    let opaque = t.lines().any(|l| l.starts_with("//@opt") && (l.contains("opaquelits") || l.contains("xmllits")));
    let (mut o, mut i) = (String::new(), 0);
    while i < c.len() {
        let word = i > 0 && (c[i - 1].is_alphanumeric() || c[i - 1] == '_' || c[i - 1] == '"');
        if c[i] == 'S' && !word && c.get(i + 1) == Some(&'"') {
            i += 2;
            let mut v = vec![];
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' && i + 1 < c.len() {
                    i += 1;
                    v.push(match c[i] { 'n' => '\n', 't' => '\t', 'r' => '\r', x => x });
                } else {
                    v.push(c[i]);
                }
                i += 1;
            }
            i += 1;
            if v.is_empty() {
                o.push_str("Seq::<char>::empty()");
            } else {
                let chars = v.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(",");
                if opaque {
                    let text: String = v.iter().collect();
                    let n = text_name(&text);
                    TEXTS.with(|m| m.borrow_mut().insert(text, chars));
                    o.push_str(&format!("{n}()"));
                } else {
                    o.push_str(&format!("seq![{chars}]"));
                }
            }
        } else {
            o.push(c[i]);
            i += 1;
        }
    }
    o
}

/// the texts of a constant `&["…", …]`
fn pair_list(it: &Item) -> Option<Vec<(String, String)>> {
    let Item::Const(c) = it else { return None };
    let Expr::Reference(r) = &*c.expr else { return None };
    let Expr::Array(a) = &*r.expr else { return None };
    let text = |e: &Expr| match e { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()), _ => None };
    let ps: Option<Vec<(String, String)>> = a.elems.iter().map(|e| match e { Expr::Tuple(t) if t.elems.len() == 2 => Some((text(&t.elems[0])?, text(&t.elems[1])?)), _ => None }).collect();
    ps.filter(|p| !p.is_empty())
}
fn text_list(it: &Item) -> Option<Vec<String>> {
    let Item::Const(c) = it else { return None };
    let Expr::Reference(r) = &*c.expr else { return None };
    let Expr::Array(a) = &*r.expr else { return None };
    let ts: Option<Vec<String>> = a.elems.iter().map(|e| match e { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()), _ => None }).collect();
    ts.filter(|t| !t.is_empty())
}
