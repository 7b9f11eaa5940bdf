//! token stream -> text, expanding markers:
//!   vx_m!(N);            -> raw text N
//!   { vx_h!(N); ... }    -> raw text N placed before the `{`
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream, table: &[String]) -> String {
    let mut o = String::new();
    go(ts.into_iter().collect::<Vec<_>>(), table, &mut o);
    o
}

fn marker(t: &[TokenTree], i: usize, name: &str) -> Option<usize> {
    if i + 2 < t.len() {
        if let (TokenTree::Ident(a), TokenTree::Punct(p), TokenTree::Group(g)) = (&t[i], &t[i + 1], &t[i + 2]) {
            if a == name && p.as_char() == '!' {
                return g.stream().to_string().trim().parse().ok();
            }
        }
    }
    None
}

fn go(t: Vec<TokenTree>, table: &[String], o: &mut String) {
    let mut i = 0;
    while i < t.len() {
        if let Some(n) = marker(&t, i, "vx_m") {
            o.push('\n');
            o.push_str(&table[n]);
            o.push('\n');
            i += 3;
            if i < t.len() {
                if let TokenTree::Punct(p) = &t[i] {
                    if p.as_char() == ';' {
                        i += 1;
                    }
                }
            }
            continue;
        }
        match &t[i] {
            TokenTree::Group(g) => {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                match g.delimiter() {
                    Delimiter::Brace => {
                        let mut rest = inner;
                        let mut hs = vec![];
                        while let Some(n) = marker(&rest, 0, "vx_h") {
                            hs.push(n);
                            let skip = if rest.len() > 3 && matches!(&rest[3], TokenTree::Punct(p) if p.as_char()==';') { 4 } else { 3 };
                            rest = rest[skip..].to_vec();
                        }
                        for n in hs {
                            o.push('\n');
                            o.push_str(&table[n]);
                            o.push('\n');
                        }
                        o.push_str("{\n");
                        go(rest, table, o);
                        o.push_str("\n}\n");
                    }
                    Delimiter::Parenthesis => {
                        o.push('(');
                        go(inner, table, o);
                        o.push_str(") ");
                    }
                    Delimiter::Bracket => {
                        o.push('[');
                        go(inner, table, o);
                        o.push_str("] ");
                    }
                    Delimiter::None => go(inner, table, o),
                }
            }
            TokenTree::Ident(id) => {
                o.push_str(&id.to_string());
                o.push(' ');
            }
            TokenTree::Punct(p) => {
                o.push(p.as_char());
                if p.as_char() == ';' {
                    o.push('\n');
                } else if p.spacing() == Spacing::Alone {
                    o.push(' ');
                }
            }
            TokenTree::Literal(l) => {
                o.push_str(&l.to_string());
                o.push(' ');
            }
        }
        i += 1;
    }
}
