//! What a literal does to an XML reader: proposed here, proved by Verus (`by (compute_only)`).
use std::collections::BTreeMap;

#[derive(Clone, PartialEq)]
struct Name {
    sym: bool,
    s: String,
}
struct Sim {
    m: char,
    n: Name,
    push: Vec<Name>,
    pop: Vec<Option<Name>>,
    /// what the unknown name has to be
    bind: Option<String>,
}
impl Sim {
    fn none() -> Name {
        Name { sym: false, s: String::new() }
    }
    fn step(&mut self, c: char) -> Option<()> {
        let blank = matches!(c, ' ' | '\n' | '\t' | '\r');
        match self.m {
            'T' => match c {
                '<' => self.m = 'O',
                '&' => self.m = 'r',
                _ => {}
            },
            'O' => match c {
                '/' => self.m = 'E',
                '?' => self.m = 'I',
                '!' => self.m = 'C',
                '<' | '>' | '"' | '&' => return None,
                _ if blank => return None,
                c => {
                    self.m = 'N';
                    self.n.s.push(c);
                }
            },
            'N' => match c {
                '>' | '/' => {
                    self.push.push(std::mem::replace(&mut self.n, Self::none()));
                    self.m = if c == '>' { 'T' } else { 'S' };
                }
                _ if blank => {
                    self.push.push(std::mem::replace(&mut self.n, Self::none()));
                    self.m = 'A';
                }
                '<' | '"' | '&' | '=' => return None,
                c => self.n.s.push(c),
            },
            'A' => match c {
                '>' => self.m = 'T',
                '/' => self.m = 'S',
                '<' | '"' | '&' | '=' => return None,
                _ if blank => {}
                _ => self.m = 'B',
            },
            'B' => match c {
                '=' => self.m = 'Q',
                '<' | '"' | '&' | '>' | '/' => return None,
                _ if blank => return None,
                _ => {}
            },
            'Q' => {
                if c != '"' {
                    return None;
                }
                self.m = 'V'
            }
            'V' => match c {
                '"' => self.m = 'A',
                '<' => return None,
                '&' => self.m = 'v',
                _ => {}
            },
            'S' => {
                if c != '>' {
                    return None;
                }
                if self.push.pop().is_none() {
                    self.pop.push(None);
                }
                self.m = 'T';
            }
            'E' => {
                if c == '<' {
                    return None;
                }
                if c == '>' {
                    let n = std::mem::replace(&mut self.n, Self::none());
                    match self.push.pop() {
                        Some(t) if t == n => {}
                        Some(t) if t.sym && t.s.is_empty() && !n.sym && self.bind.is_none() => self.bind = Some(n.s),
                        Some(_) => return None,
                        None => self.pop.push(Some(n)),
                    }
                    self.m = 'T';
                } else {
                    self.n.s.push(c)
                }
            }
            'I' | 'C' => {
                if c == '<' {
                    return None;
                }
                if c == '>' {
                    self.m = 'T'
                }
            }
            'r' | 'v' => {
                if c == ';' {
                    self.m = if self.m == 'r' { 'T' } else { 'V' }
                } else if !"#ampltgquos0123456789".contains(c) {
                    return None;
                }
            }
            _ => return None,
        }
        Some(())
    }
}
pub fn name_fn(n: &str, names: &mut BTreeMap<String, String>) -> String {
    let f = crate::unit::text_name(n);
    names.insert(n.to_string(), f.clone());
    format!("{f}()")
}
/// broadcast lemmas about one literal; `t` is its text function
pub fn effects(text: &str, t: &str, names: &mut BTreeMap<String, String>, group: &mut Vec<String>) -> String {
    let mut out = String::new();
    for start in ['T', 'V', 'A', 'N', 'E', 'O', 'B', 'Q', 'S'] {
        let sym = start == 'N' || start == 'E';
        let mut z = Sim { m: start, n: Name { sym, s: String::new() }, push: vec![], pop: vec![], bind: None };
        if text.chars().try_for_each(|c| z.step(c).ok_or(())).is_err() || !"TVANEOBQS".contains(z.m) {
            continue;
        }
        if start == 'E' && (z.pop.first() != Some(&Some(Name { sym: true, s: String::new() })) || z.m != 'T') {
            continue;
        }
        let mut used: std::collections::BTreeSet<String> = Default::default();
        let bind = z.bind.clone();
        if bind.is_some() && (start != 'N' || z.n.sym || z.push.iter().any(|n| n.sym) || z.pop.iter().any(|n| n.as_ref().is_some_and(|n| n.sym))) {
            continue;
        }
        let mut expr = |n: &Name| {
            if n.sym {
                return n.s.chars().fold("n".to_string(), |a, c| format!("{a}.push({c:?})"));
            }
            let f = name_fn(&n.s, names);
            used.insert(f.trim_end_matches("()").to_string());
            f
        };
        let mut params = vec!["k: Stk".to_string()];
        let mut own = "n".to_string();
        if let Some(b) = &bind {
            own = expr(&Name { sym: false, s: b.clone() });
        } else if sym {
            params.push("n: Seq<char>".into());
        }
        let mut k0 = "k".to_string();
        for (i, p) in z.pop.iter().enumerate().rev() {
            let h = match p {
                Some(n) => expr(n),
                None => {
                    params.push(format!("h{i}: Seq<char>"));
                    format!("h{i}")
                }
            };
            k0 = format!("cons({h}, {k0})");
        }
        let mut k1 = "k".to_string();
        for p in &z.push {
            k1 = format!("cons({}, {k1})", expr(p));
        }
        let a = if sym { format!("nm(M::{start}, {own}, {k0})") } else { format!("st(M::{start}, {k0})") };
        let b = match z.m {
            'N' | 'E' => format!("nm(M::{}, {}, {k1})", z.m, if z.n.s.is_empty() && !z.n.sym { "Seq::empty()".to_string() } else { expr(&z.n) }),
            m => format!("st(M::{m}, {k1})"),
        };
        let f = format!("vx_x_{}_{}", t.trim_end_matches("()"), start);
        out.push_str(&format!(
            "pub broadcast proof fn {f}({}) ensures #[trigger] run({a}, {t}) == {b} {{ reveal(run); reveal({});{} assert(run({a}, {t}) == {b}) by (compute_only); }}\n",
            params.join(", "), t.trim_end_matches("()"), used.iter().map(|f| format!(" reveal({f});")).collect::<String>()
        ));
        group.push(f);
    }
    // an end tag
    if text.len() <= 40 && text.starts_with("</") && text.ends_with('>') {
        let t0 = t.trim_end_matches("()");
        let f = format!("vx_x_{t0}_lt");
        out.push_str(&format!("pub broadcast proof fn {f}() ensures #![trigger {t}] {t}.len() > 0, {t}[0] == '<' {{ reveal({t0}); }}\n"));
        group.push(f);
    }
    // texts that can be names
    if text.len() <= 40 && text.chars().all(|c| c.is_ascii_alphanumeric() || ":_.-".contains(c)) {
        let t0 = t.trim_end_matches("()");
        let f = format!("vx_x_{t0}_name");
        out.push_str(&format!("pub broadcast proof fn {f}() ensures #![trigger {t}] namey({t}), namey1({t}), {t}.len() > 0 {{ reveal(namey); reveal({t0}); }}\n"));
        group.push(f);
    }
    out
}
