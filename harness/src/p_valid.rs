//! C10: the package check says what is wrong, and nothing else
use crate::ctx::{Ctx, Rng};
use crate::genr;
use crate::p_package;
use crate::pkg::{Node, Pkg};
use ppt_rs::core::*;
use ppt_rs::opc::Package;
use std::collections::BTreeMap;
use std::io::Cursor;

pub type Parts = BTreeMap<String, Vec<u8>>;
pub fn pack(p: &Parts) -> Vec<u8> {
    let mut k = Package::new();
    for (n, b) in p {
        k.add_part(n.clone(), b.clone());
    }
    let mut v = Cursor::new(vec![]);
    k.save_writer(&mut v).unwrap();
    v.into_inner()
}
fn escv(t: &str) -> String {
    t.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;").replace('\n', "&#10;").replace('\r', "&#13;").replace('\t', "&#9;")
}
/// the same tree in another spelling
fn spell(n: &Node, r: &mut Rng, o: &mut String) {
    o.push('<');
    o.push_str(&n.name);
    let mut a: Vec<_> = n.attrs.iter().collect();
    if r.chance(1, 2) {
        a.reverse();
    }
    for (k, v) in a {
        o.push_str(if r.chance(1, 4) { "\n  " } else { " " });
        if r.chance(1, 4) { o.push_str(&format!("{k} = '{}'", escv(v).replace('\'', "&apos;"))) } else { o.push_str(&format!("{k}=\"{}\"", escv(v))) }
    }
    if n.kids.is_empty() && r.chance(2, 3) {
        o.push_str(if r.chance(1, 2) { "/>" } else { " />" });
        return;
    }
    o.push('>');
    for k in &n.kids {
        if r.chance(1, 4) {
            o.push_str("\n  ");
        }
        spell(k, r, o);
    }
    o.push_str(&format!("</{}>", n.name));
}
pub fn spelled(b: &[u8], r: &mut Rng) -> Option<Vec<u8>> {
    let x = crate::pkg::parse_xml(b).ok()?;
    let mut o = if r.chance(1, 2) { "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n".to_string() } else { String::new() };
    spell(&x, r, &mut o);
    Some(o.into_bytes())
}
pub fn sub(p: &mut Parts, part: &str, f: impl Fn(&str) -> Option<String>) -> bool {
    let Some(b) = p.get(part) else { return false };
    let Ok(t) = std::str::from_utf8(b) else { return false };
    let Some(n) = f(t) else { return false };
    if n == t {
        return false;
    }
    p.insert(part.to_string(), n.into_bytes());
    true
}
pub fn cut_out(t: &str, from: &str, has: &str, to: &str) -> Option<String> {
    let mut at = 0;
    while let Some(i) = t[at..].find(from) {
        let i = at + i;
        let j = i + t[i..].find(to)? + to.len();
        if t[i..j].contains(has) {
            return Some(format!("{}{}", &t[..i], &t[j..]));
        }
        at = j;
    }
    None
}
const NEEDED: &[&str] = &[
    "[Content_Types].xml", "_rels/.rels", "ppt/presentation.xml", "ppt/_rels/presentation.xml.rels", "ppt/presProps.xml", "ppt/viewProps.xml",
    "ppt/tableStyles.xml", "ppt/theme/theme1.xml", "ppt/slideMasters/slideMaster1.xml", "ppt/slideLayouts/slideLayout1.xml", "docProps/core.xml", "docProps/app.xml",
];
/// (what is broken, category the report has to name)
fn damage(p: &Pkg, r: &mut Rng) -> Option<(String, Parts, ValidationCategory)> {
    use ValidationCategory as V;
    let mut q = p.parts.clone();
    let names: Vec<String> = q.keys().cloned().collect();
    let slides = p.slides();
    let what = match r.below(12) {
        0 => {
            let n = *r.pick(NEEDED);
            q.remove(n)?;
            (format!("required part {n} removed"), V::MissingPart)
        }
        1 => {
            // the target of an internal relationship
            let src = r.pick(&names).clone();
            let rels: Vec<_> = p.rels_of(&src).into_iter().filter(|x| !x.external).collect();
            if rels.is_empty() {
                return None;
            }
            let t = Pkg::resolve(&src, &r.pick(&rels).target.clone());
            q.remove(&t)?;
            (format!("{t}, a target of {src}, removed"), V::Relationship)
        }
        2 => {
            let xs: Vec<&String> = names.iter().filter(|n| Pkg::is_xml(n)).collect();
            if xs.is_empty() {
                return None;
            }
            let n = (*r.pick(&xs)).clone();
            let k = r.below(6);
            let pos = r.next() as usize;
            if !sub(&mut q, &n, |t| {
                Some(match k {
                    0 => {
                        let end = t.trim_end().len() - 1;
                        let mut i = 1 + pos % end;
                        while !t.is_char_boundary(i) {
                            i -= 1
                        }
                        t[..i].to_string()
                    }
                    1 => t.replacen("</", "<", 1),
                    2 => format!("{t}<more/>"),
                    3 => {
                        let i = t.rfind("</")?;
                        format!("{} & {}", &t[..i], &t[i..])
                    }
                    4 => {
                        let i = t.rfind("</")?;
                        format!("{}</x>{}", &t[..i], &t[i..])
                    }
                    _ => {
                        let i = t.rfind("</")?;
                        t[..i].to_string()
                    }
                })
            }) {
                return None;
            }
            crate::pkg::parse_xml(&q[&n]).err()?;
            (format!("{n} damaged ({k})"), V::Xml)
        }
        3 => {
            let xs: Vec<&String> = names.iter().filter(|n| Pkg::is_xml(n)).collect();
            if xs.is_empty() {
                return None;
            }
            let n = (*r.pick(&xs)).clone();
            let b = q.get_mut(&n)?;
            let at = b.len() / 2;
            b.insert(at, 0xff);
            (format!("{n} is not text"), V::Xml)
        }
        4 => {
            let xs: Vec<&String> = names.iter().filter(|n| n.ends_with(".rels")).collect();
            if xs.is_empty() {
                return None;
            }
            let n = (*r.pick(&xs)).clone();
            if !sub(&mut q, &n, |t| {
                let i = t.find("Target=\"")? + 8;
                if t[..i].rfind('<').is_some_and(|o| t[o..].split('>').next().unwrap().contains("External")) {
                    return None;
                }
                Some(format!("{}x{}", &t[..i], &t[i..]))
            }) {
                return None;
            }
            (format!("a target of {n} misspelled"), V::Relationship)
        }
        5 => {
            // a relationship a slide refers to
            if slides.is_empty() {
                return None;
            }
            let s = r.pick(&slides).clone();
            let x = p.xml(&s)?;
            let mut ids = vec![];
            x.walk(&mut |n| {
                for a in ["r:embed", "r:id"] {
                    if let Some(v) = n.attr(a) {
                        if v.starts_with("rId") {
                            ids.push(v.to_string());
                        }
                    }
                }
            });
            if ids.is_empty() {
                return None;
            }
            let id = r.pick(&ids).clone();
            if r.chance(1, 2) {
                // a reference that leads nowhere, in another spelling
                if !sub(&mut q, &s, |t| Some(t.replacen(&format!(":embed=\"{id}\""), ":embed = 'nowhere7'", 1).replacen(&format!(":id=\"{id}\""), ":id = 'nowhere7'", 1))) {
                    return None;
                }
                return Some((format!("{s} refers to a relationship it does not have"), q, V::Slide));
            }
            if !sub(&mut q, &Pkg::rels_name(&s), |t| cut_out(t, "<Relationship ", &format!("Id=\"{id}\""), "/>")) {
                return None;
            }
            (format!("relationship {id} of {s} removed"), V::Slide)
        }
        6 => {
            // no content type for a part that is not XML
            let n = names.iter().find(|n| !Pkg::is_xml(n))?.clone();
            let ext = n.rsplit('.').next()?.to_string();
            let mut any = false;
            while sub(&mut q, "[Content_Types].xml", |t| cut_out(t, "<Default ", &format!("Extension=\"{ext}\""), "/>")) {
                any = true;
            }
            while sub(&mut q, "[Content_Types].xml", |t| cut_out(t, "<Override ", &format!("PartName=\"/{n}\""), "/>")) {
                any = true;
            }
            if !any {
                return None;
            }
            (format!("no content type for {n}"), V::ContentType)
        }
        7 => {
            // a part whose name is the start of another one's
            let n = names.iter().find(|n| n.starts_with("ppt/slides/slide"))?;
            let n = n.trim_end_matches(".xml").to_string();
            q.insert(n.clone(), b"x".to_vec());
            (format!("{n} added without a content type"), V::ContentType)
        }
        8 => {
            let k = r.below(slides.len().max(1));
            let rid = p.xml("ppt/presentation.xml")?.all("p:sldId").get(k)?.attr("r:id")?.to_string();
            if !sub(&mut q, "ppt/presentation.xml", |t| Some(t.replace(&format!("r:id=\"{rid}\""), "r:id=\"rId9999\""))) {
                return None;
            }
            ("a slide entry leads nowhere".into(), V::Presentation)
        }
        9 => {
            if slides.len() < 2 {
                return None;
            }
            if !sub(&mut q, "ppt/presentation.xml", |t| {
                let i = t.rfind("<p:sldId ")?;
                let j = i + t[i..].find("/>")? + 2;
                Some(format!("{}{}", &t[..i], &t[j..]))
            }) {
                return None;
            }
            ("a slide is missing in the list of slides".into(), V::Presentation)
        }
        10 => {
            if slides.is_empty() {
                return None;
            }
            let s = r.pick(&slides).clone();
            let x = p.xml(&s)?;
            let ids: Vec<String> = x.all("p:cNvPr").iter().filter_map(|n| n.attr("id")).map(|s| s.to_string()).collect();
            if ids.len() < 2 {
                return None;
            }
            let k = r.range(1, ids.len() - 1);
            let to = ids[r.below(k)].clone();
            let from = ids[k].clone();
            if !sub(&mut q, &s, |t| Some(t.replacen(&format!("<p:cNvPr id=\"{from}\""), &format!("<p:cNvPr id=\"{to}\""), 1))) {
                return None;
            }
            (format!("two shapes of {s} have id {to}"), V::Slide)
        }
        _ => {
            let n = names.iter().find(|n| n.starts_with("ppt/embeddings/") || n.starts_with("ppt/charts/_rels/"))?.clone();
            q.remove(&n);
            (format!("{n} of a chart removed"), V::Chart)
        }
    };
    Some((what.0, q, what.1))
}
pub fn run(c: &mut Ctx) {
    c.rule = "random decks (written, written lazily), respelled without change, and damaged in one of twelve known ways; arbitrary and cut-off archives; the report compared with what was done; non-trivial: a damaged deck with two slides or more".into();
    let mut n = 0;
    while c.upto(n, 2500) {
        n += 1;
        let d = genr::deck(&mut c.rng);
        let lazy = c.rng.chance(1, 4);
        let inp = d.desc();
        let Ok(b) = p_package::write(&d, lazy) else { continue };
        let Ok(p) = Pkg::open(&b) else { continue };
        c.case(&inp, d.slides.len() > 1);
        let Some(rep) = c.guard("check-panics", &inp, || validate_package_bytes(&b)) else { continue };
        let errs = |r: &PackageValidationReport| r.issues.iter().filter(|i| i.severity == ValidationSeverity::Error).map(|i| format!("{:?} {}", i.category, i.message)).collect::<Vec<_>>();
        c.check(rep.is_valid(), "written-deck-refused", || format!("{:?}", errs(&rep)), || inp.clone());
        if !rep.is_valid() {
            continue;
        }
        // another spelling of the same parts
        let mut q = p.parts.clone();
        for part in p.parts.keys().filter(|n| n.ends_with(".rels") || matches!(n.as_str(), "[Content_Types].xml")) {
            if c.rng.chance(1, 2) {
                if let Some(x) = spelled(&p.parts[part], &mut c.rng) {
                    q.insert(part.clone(), x);
                }
            }
        }
        let rep = validate_package_bytes(&pack(&q));
        c.check(rep.is_valid(), "respelled-deck-refused", || format!("{:?}", errs(&rep)), || inp.clone());
        for _ in 0..5 {
            let Some((what, q, cat)) = damage(&p, &mut c.rng) else { continue };
            let inp = format!("{what}; deck {inp}");
            let b = pack(&q);
            let Some(rep) = c.guard("check-panics", &inp, || validate_package_bytes(&b)) else { continue };
            c.check(!rep.is_valid(), &format!("not-noticed:{cat:?}"), || format!("{what}, not reported"), || inp.clone());
            c.check(rep.issues.iter().any(|i| i.category == cat && i.severity == ValidationSeverity::Error), &format!("not-named:{cat:?}"), || format!("{what}, reported as {:?}", errs(&rep)), || inp.clone());
            let e = rep.issues.iter().filter(|i| i.severity == ValidationSeverity::Error).count();
            let w = rep.issues.iter().filter(|i| i.severity == ValidationSeverity::Warning).count();
            c.check(rep.error_count() == e && rep.warning_count() == w && rep.is_valid() == (e == 0) && rep.is_ok() == rep.is_valid() && rep.error_messages().len() == e, "report-counts", || format!("{} errors, {} warnings counted", rep.error_count(), rep.warning_count()), || inp.clone());
        }
        if n % 4 == 0 {
            // damaged archives
            let mut x = b.clone();
            if c.rng.chance(1, 2) {
                x.truncate(c.rng.below(b.len()));
            }
            for _ in 0..c.rng.below(6) {
                if !x.is_empty() {
                    let k = c.rng.below(x.len());
                    x[k] ^= 1 << c.rng.below(8);
                }
            }
            let Some(rep) = c.guard("check-panics", "damaged archive", || validate_package_bytes(&x)) else { continue };
            if x.len() < b.len() {
                c.check(!rep.is_valid(), "cut-off-archive", || format!("cut at {} of {} bytes, not reported", x.len(), b.len()), || inp.clone());
            }
            let x = c.rng.bytes(60);
            c.guard("check-panics", "arbitrary bytes", || validate_package_bytes(&x));
        }
        fields(c);
        wellformed(c);
    }
}
fn fields(c: &mut Ctx) {
    let (i, k) = (*c.rng.pick(&[0usize, 1, 2, 5, usize::MAX]), *c.rng.pick(&[0usize, 1, 2, 6, usize::MAX]));
    c.check(validate_index(i, k, "f").is_ok() == (i < k), "index", || "index".into(), || format!("validate_index({i},{k})"));
    let v = *c.rng.pick(&[0u32, 1, 7, u32::MAX]);
    c.check(validate_positive(v, "f").is_ok() == (v > 0), "positive", || "positive".into(), || format!("validate_positive({v})"));
    let t = *c.rng.pick(&["", " ", "\t\n", "a", " a ", "\u{a0}"]);
    c.check(validate_non_empty_str(t, "f").is_ok() == t.chars().any(|x| !x.is_whitespace()), "non-empty", || "text".into(), || format!("{t:?}"));
    let v: Vec<u8> = vec![0; c.rng.below(3)];
    c.check(validate_non_empty(&v, "f").is_ok() == !v.is_empty(), "non-empty", || "list".into(), || format!("{v:?}"));
    let x = *c.rng.pick(&[-1.0, 0.0, 0.5, 1.0, 2.5, -0.0, f64::INFINITY]);
    let want = if x < 0.0 { 0.0 } else if x > 1.0 { 1.0 } else { x };
    c.check(clamp_unit_interval(x) == want, "clamp", || "clamp".into(), || format!("{x}"));
}
fn wellformed(c: &mut Ctx) {
    let piece = ["<a>", "</a>", "<b/>", "t", "&amp;", "&", "<", "<!-- c -->", "<a x='1'>", "<a x=1>", "<a x='1' x='2'>", "]]>", "<![CDATA[<]]>", "</b>", "&#65;", "&x;", "\"", ">", "<?p q?>"];
    let t: String = (0..c.rng.range(1, 6)).map(|_| *c.rng.pick(&piece)).collect();
    let want = crate::pkg::parse_xml(t.as_bytes()).is_ok();
    c.check(validate_well_formed_xml(&t).is_ok() == want, "well-formed", || format!("well-formed: {want}, said otherwise"), || t.clone());
}
