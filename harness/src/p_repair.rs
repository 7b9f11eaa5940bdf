//! C11: repair finds what is broken, mends that and leaves the rest
use crate::ctx::{Ctx, Rng};
use crate::genr;
use crate::p_package;
use crate::p_valid::{cut_out, pack, spelled, sub, Parts};
use crate::pkg::{parse_xml, Node, Pkg};
use ppt_rs::oxml::repair::{PptxRepair, RepairIssue};
use std::collections::BTreeMap;
use std::rc::Rc;

const CT: &str = "[Content_Types].xml";
const PRES: &str = "ppt/presentation.xml";
const RELS: &str = "ppt/_rels/presentation.xml.rels";
const NEEDED: &[&str] = &[CT, "_rels/.rels", PRES, RELS];

thread_local! { static SEEN: std::cell::RefCell<std::collections::HashMap<Vec<u8>, Option<Rc<Node>>>> = Default::default(); }
pub fn tree(p: &Parts, n: &str) -> Option<Rc<Node>> {
    let b = p.get(n)?;
    SEEN.with_borrow_mut(|m| {
        if let Some(x) = m.get(b) {
            return x.clone();
        }
        if m.len() > 5000 {
            m.clear();
        }
        let x = std::str::from_utf8(b).ok().and_then(|_| parse_xml(b).ok()).map(Rc::new);
        m.insert(b.clone(), x.clone());
        x
    })
}
/// source part of a relationships part
pub fn source(rels: &str) -> String {
    if rels == "_rels/.rels" {
        return String::new();
    }
    rels.replacen("/_rels/", "/", 1).trim_end_matches(".rels").to_string()
}
fn rel_files(p: &Parts) -> Vec<String> {
    let mut v = vec!["_rels/.rels".to_string(), RELS.to_string()];
    v.extend(p.keys().filter(|n| n.starts_with("ppt/slides/_rels/") && n.ends_with(".xml.rels")).cloned());
    v.retain(|n| p.contains_key(n));
    v
}
/// (index among the children, id, type, path) of every relationship to a part
fn inside(p: &Parts, rels: &str) -> Vec<(usize, String, String, String)> {
    let Some(x) = tree(p, rels) else { return vec![] };
    let mut v = vec![];
    for (k, r) in x.kids.iter().enumerate() {
        if r.name != "Relationship" || r.attr("TargetMode") == Some("External") {
            continue;
        }
        let Some(t) = r.attr("Target") else { continue };
        let ty = r.attr("Type").unwrap_or("").rsplit('/').next().unwrap_or("").to_string();
        v.push((k, r.attr("Id").unwrap_or("").to_string(), ty, Pkg::resolve(&source(rels), t)));
    }
    v
}
fn listed(p: &Parts) -> Option<Vec<String>> {
    let x = tree(p, PRES)?;
    (x.name == "p:presentation").then(|| x.all("p:sldId").iter().map(|s| s.attr("r:id").unwrap_or("").to_string()).collect())
}
fn slide_parts(p: &Parts) -> Vec<String> {
    let mut v: Vec<String> = p.keys().filter(|n| n.starts_with("ppt/slides/slide") && n.ends_with(".xml") && !n.contains("_rels")).cloned().collect();
    v.sort_by_key(|n| (n.len(), n.clone()));
    v
}
/// what is wrong with a package, and which parts a repair of it may write
fn wrong(p: &Parts) -> Vec<(String, Vec<String>)> {
    let mut v: Vec<(String, Vec<String>)> = vec![];
    let s = |x: &[&str]| x.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    for n in NEEDED {
        if !p.contains_key(*n) {
            v.push((format!("missing {n}"), s(&[n])));
        }
    }
    for n in p.keys().filter(|n| n.ends_with(".xml") || n.ends_with(".rels")) {
        if tree(p, n).is_none() {
            v.push((format!("invalid {n}"), s(&[n])));
        }
    }
    for f in rel_files(p) {
        for (_, id, _, t) in inside(p, &f) {
            if !p.contains_key(&t) {
                v.push((format!("broken {f} {id} {t}"), if f == RELS { s(&[RELS, PRES]) } else { s(&[&f]) }));
            }
        }
    }
    let slides: Vec<_> = inside(p, RELS).into_iter().filter(|r| r.2 == "slide").collect();
    for r in &slides {
        if !p.contains_key(&r.3) {
            v.push((format!("orphan {}", r.3), s(&[RELS, PRES])));
        }
    }
    let list = listed(p);
    for n in slide_parts(p) {
        if !slides.iter().any(|r| r.3 == n && list.as_ref().is_none_or(|l| l.contains(&r.1))) {
            v.push((format!("unlisted {n}"), s(&[RELS, PRES])));
        }
    }
    if let Some(x) = tree(p, CT) {
        for n in p.keys().filter(|n| *n != CT && !n.ends_with(".rels")) {
            let ext = n.rsplit('.').next().unwrap();
            let ok = x.kids.iter().any(|k| match k.name.as_str() {
                "Override" => k.attr("PartName") == Some(&format!("/{n}")),
                "Default" => k.attr("Extension").is_some_and(|e| e.eq_ignore_ascii_case(ext)),
                _ => false,
            });
            if !ok {
                v.push((format!("untyped {n}"), s(&[CT])));
            }
        }
    }
    v.sort();
    v
}
fn name(i: &RepairIssue) -> String {
    match i {
        RepairIssue::MissingPart { path, .. } => format!("missing {path}"),
        RepairIssue::InvalidXml { path, .. } => format!("invalid {path}"),
        RepairIssue::BrokenRelationship { source, target, rel_id } => format!("broken {source} {rel_id} {target}"),
        RepairIssue::OrphanSlide { slide_path } => format!("orphan {slide_path}"),
        RepairIssue::MissingSlideReference { slide_path } => format!("unlisted {slide_path}"),
        RepairIssue::InvalidContentType { path } => format!("untyped {path}"),
        x => format!("{x:?}"),
    }
}
fn names(v: &[RepairIssue]) -> Vec<String> {
    let mut v: Vec<String> = v.iter().map(name).collect();
    v.sort();
    v
}
fn parts(r: &PptxRepair) -> Parts {
    r.package().part_paths().into_iter().map(|n| (n.to_string(), r.package().get_part(n).unwrap().to_vec())).collect()
}
/// bare ampersands escaped, a declaration in front
fn mended(b: &[u8]) -> Option<String> {
    let t = std::str::from_utf8(b).ok()?;
    let t = t.strip_prefix('\u{feff}').unwrap_or(t);
    let mut o = String::new();
    if !t.trim().starts_with("<?xml") {
        o.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n");
    }
    for (k, p) in t.split('&').enumerate() {
        if k > 0 {
            o.push_str(if parse_xml(format!("<x>&{};</x>", p.split(';').next().filter(|n| n.len() < p.len() && !n.is_empty() && n.chars().all(|c| c.is_ascii_alphanumeric() || c == '#')).unwrap_or("?")).as_bytes()).is_ok() { "&" } else { "&amp;" });
        }
        o.push_str(p);
    }
    Some(o)
}
fn bare(n: &Node) -> Node {
    Node { name: n.name.clone(), attrs: n.attrs.clone(), kids: n.kids.iter().map(bare).collect(), text: n.text.trim().to_string() }
}
fn same(a: &Node, b: &Node) -> bool {
    a.name == b.name && a.attrs == b.attrs && a.text.split_whitespace().eq(b.text.split_whitespace()) && a.kids.len() == b.kids.len() && a.kids.iter().zip(&b.kids).all(|(x, y)| same(x, y))
}
fn respell(q: &mut Parts, r: &mut Rng, n: &str) {
    if let Some(x) = q.get(n).and_then(|b| spelled(b, r)) {
        q.insert(n.into(), x);
    }
}
fn without_sld_ids(n: &Node) -> Node {
    let mut n = bare(n);
    n.kids.retain(|k| k.name != "p:sldIdLst");
    n
}
/// break something in one of many ways
fn damage(q: &mut Parts, r: &mut Rng) -> Option<String> {
    let keys: Vec<String> = q.keys().cloned().collect();
    let slides = slide_parts(q);
    Some(match r.below(17) {
        0 => {
            let n = *r.pick(NEEDED);
            q.remove(n)?;
            format!("{n} removed")
        }
        1 => {
            let f = rel_files(q);
            let f = r.pick(&f).clone();
            let v = inside(q, &f);
            if v.is_empty() {
                return None;
            }
            let t = r.pick(&v).3.clone();
            if NEEDED.contains(&t.as_str()) {
                return None;
            }
            q.remove(&t)?;
            format!("{t} removed")
        }
        2 => {
            let f = rel_files(q);
            let f = r.pick(&f).clone();
            let k = r.below(6);
            sub(q, &f, |t| {
                let mut at = 0;
                for _ in 0..=k {
                    at += t[at..].find("Target=\"")? + 8;
                }
                Some(format!("{}{}{}", &t[..at], ["x", "../", "../../media/"][k % 3], &t[at..]))
            });
            format!("a target of {f} misspelled")
        }
        3 => {
            let xs: Vec<&String> = keys.iter().filter(|n| Pkg::is_xml(n)).collect();
            if xs.is_empty() {
                return None;
            }
            let n = (*r.pick(&xs)).clone();
            let k = r.below(9);
            let pos = r.next() as usize;
            sub(q, &n, |t| {
                let mut i = pos % t.len();
                if k < 5 {
                    // inside an attribute value or between elements
                    i = t[i..].find(if pos % 2 == 0 { "\">" } else { "\"/>" }).map(|j| i + j)?;
                }
                while !t.is_char_boundary(i) {
                    i -= 1;
                }
                // the XML declaration is not part of the text
                if t.find("?>").is_some_and(|d| i < d + 2) {
                    return None;
                }
                // nor is `</` in a value told from an end tag by the reader compared with
                if k == 5 && t[i..].starts_with('/') {
                    return None;
                }
                let ins = ["&", " & ", "&nbsp;", "&#;", "&#xyz;", "<", "&", "]]>", "\u{1}"][k];
                Some(format!("{}{ins}{}", &t[..i], &t[i..]))
            });
            format!("{n} damaged ({k}, {pos})")
        }
        4 => {
            let n = r.pick(&keys).clone();
            let b = q.get_mut(&n)?;
            let at = b.len() / 2;
            b.insert(at, 0xff);
            format!("{n} is not text")
        }
        5 => {
            let nth = r.below(slides.len().max(1)) as i64;
            if !sub(q, PRES, |t| {
                let mut k = nth;
                let mut i = t.find("<p:sldId ")?;
                while k > 0 {
                    i += 5 + t[i + 5..].find("<p:sldId ")?;
                    k -= 1;
                }
                let j = i + t[i..].find("/>")? + 2;
                Some(format!("{}{}", &t[..i], &t[j..]))
            }) {
                return None;
            }
            "a slide taken out of the list".into()
        }
        6 => {
            if slides.is_empty() {
                return None;
            }
            let s = r.pick(&slides).clone();
            let t = s.strip_prefix("ppt/")?.to_string();
            if !sub(q, RELS, |x| cut_out(x, "<Relationship ", &format!("\"{t}\""), "/>")) {
                return None;
            }
            format!("the relationship to {s} taken out")
        }
        7 => {
            let n = r.pick(&keys).clone();
            let ext = n.rsplit('.').next()?.to_string();
            if ext != "xml" && ext != "rels" {
                sub(q, CT, |t| cut_out(t, "<Default ", &format!("Extension=\"{ext}\""), "/>"));
            } else if r.chance(1, 3) {
                sub(q, CT, |t| cut_out(t, "<Default ", "Extension=\"xml\"", "/>"));
            }
            sub(q, CT, |t| cut_out(t, "<Override ", &format!("PartName=\"/{n}\""), "/>"));
            format!("no content type for {n}")
        }
        8 => {
            let n = *r.pick(&["ppt/slides/slide77.xml", "ppt/slides/slide8.xml", "ppt/slides/slide a&b.xml", "ppt/slides/slide100.xml", "ppt/slides/slide9'.xml"]);
            q.insert(n.into(), b"<p:sld xmlns:p=\"p\"/>".to_vec());
            format!("{n} added")
        }
        9 => {
            let n = *r.pick(&["ppt/media/x.GIF", "data", "ppt/slides/slide1", "ppt/media/a&b.zzz", "docProps/x.xm"]);
            q.insert(n.into(), r.bytes(9));
            format!("{n} added")
        }
        10 => {
            // not damage: links that lead outside
            let f = rel_files(q);
            let f = r.pick(&f).clone();
            let t = *r.pick(&["mailto:a@b.c", "file:///c/x.doc", "http://x.y/?a=1&amp;b=2", "other.pptx", "../up.xml"]);
            sub(q, &f, |x| Some(x.replacen("</Relationships>", &format!("<Relationship Target=\"{t}\" TargetMode=\"External\" Id=\"rIdX{}\" Type=\"t/hyperlink\"/></Relationships>", t.len()), 1)));
            format!("{f} links to {t}")
        }
        11 => {
            // not damage: a slide of another name
            if slides.is_empty() {
                return None;
            }
            let s = r.pick(&slides).clone();
            let new = "ppt/slides/page.xml".to_string();
            if q.contains_key(&new) {
                return None;
            }
            let b = q.remove(&s)?;
            q.insert(new, b);
            let rels = format!("ppt/slides/_rels/{}.rels", s.strip_prefix("ppt/slides/")?);
            if let Some(b) = q.remove(&rels) {
                q.insert("ppt/slides/_rels/page.xml.rels".into(), b);
            }
            let t = s.strip_prefix("ppt/")?.to_string();
            sub(q, RELS, |x| Some(x.replace(&format!("\"{t}\""), "\"slides/page.xml\"")));
            sub(q, CT, |x| Some(x.replace(&format!("\"/{s}\""), "\"/ppt/slides/page.xml\"")));
            format!("{s} renamed")
        }
        12 => {
            let v = *r.pick(&["4294967295", "4294967294", "65536", "007"]);
            sub(q, RELS, |x| Some(x.replacen("</Relationships>", &format!("<Relationship Id='rId{v}' Type='t/x' Target='presentation.xml'/></Relationships>"), 1)));
            format!("presentation relationship rId{v}")
        }
        13 => {
            let v = *r.pick(&["2147483647", "2147483646", "4294967295", "255", "99999999999"]);
            sub(q, PRES, |x| Some(x.replacen("<p:sldId id=\"256\"", &format!("<p:sldId id=\"{v}\""), 1)));
            format!("slide id {v}")
        }
        14 => {
            let mut k = false;
            k |= sub(q, PRES, |x| {
                let i = x.find("<p:sldIdLst")?;
                let j = x.find("</p:sldIdLst>")? + 13;
                Some(format!("{}{}{}", &x[..i], if i % 2 == 0 { "" } else { "<p:sldIdLst />" }, &x[j..]))
            });
            if !k {
                return None;
            }
            "no slide list".into()
        }
        15 => {
            if r.chance(1, 2) {
                q.insert(RELS.into(), b"<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"/>".to_vec());
                "no presentation relationships".into()
            } else {
                q.insert(CT.into(), b"<Types xmlns='http://schemas.openxmlformats.org/package/2006/content-types' />".to_vec());
                "no content types".into()
            }
        }
        _ => {
            let n = *r.pick(&[CT, RELS, PRES]);
            let b = q.get_mut(n)?;
            if b.starts_with(&[0xEF]) {
                return None;
            }
            b.splice(0..0, [0xEF, 0xBB, 0xBF]);
            format!("{n} starts with a byte order mark")
        }
    })
}
fn check(c: &mut Ctx, q: &Parts, inp: &str) {
    let want = wrong(q);
    let wnames: Vec<String> = want.iter().map(|x| x.0.clone()).collect();
    let b = pack(q);
    let Some(Ok(mut rep)) = c.guard("repair-panics", inp, || PptxRepair::from_bytes(&b)) else {
        c.fail("open", "the package was not opened", inp);
        return;
    };
    let Some(found) = c.guard("repair-panics", inp, || rep.validate()) else { return };
    let got = names(&found);
    if got != wnames {
        let kind = |s: &String| s.split(' ').next().unwrap().to_string();
        if let Some(x) = wnames.iter().find(|x| !got.contains(x)) {
            c.fail(&format!("not-found:{}", kind(x)), format!("{x} is not found; found {got:?}"), inp);
        }
        if let Some(x) = got.iter().find(|x| !wnames.contains(x)) {
            c.fail(&format!("false-alarm:{}", kind(x)), format!("{x} is found, wrong is {wnames:?}"), inp);
        }
        if got.len() != wnames.len() {
            c.fail("found-twice", format!("{got:?} for {wnames:?}"), inp);
        }
        return;
    }
    c.check(parts(&rep) == *q, "validate-writes", || "looking for issues changed the package".into(), || inp.into());
    let Some(res) = c.guard("repair-panics", inp, || rep.repair()) else { return };
    let after = parts(&rep);
    c.check(names(&res.issues_found) == wnames, "result-found", || format!("{:?} for {wnames:?}", names(&res.issues_found)), || inp.into());
    let (mut ab, rest) = (names(&res.issues_repaired), names(&res.issues_unrepaired));
    let mended_names = ab.clone();
    ab.extend(rest.clone());
    ab.sort();
    c.check(ab == wnames, "result-partition", || format!("repaired {mended_names:?}, unrepaired {rest:?} of {wnames:?}"), || inp.into());
    let left: Vec<String> = wrong(&after).into_iter().map(|x| x.0).collect();
    c.check(res.is_valid == left.is_empty(), "result-valid", || format!("is_valid = {}, left {left:?}", res.is_valid), || inp.into());
    c.check(res.fully_repaired() == rest.is_empty() && res.total_issues() == wnames.len() && res.critical_issues() == wnames.iter().filter(|x| x.starts_with("missing") || x.starts_with("invalid")).count(), "result-counts", || "counts".into(), || inp.into());
    for x in &mended_names {
        c.check(!left.contains(x), "not-repaired", || format!("{x} is listed as repaired and still there"), || inp.into());
    }
    // what has to be repaired
    for x in &rest {
        let n = x.split_once(' ').unwrap().1;
        let must = match x.split(' ').next().unwrap() {
            "missing" | "broken" | "orphan" => true,
            "invalid" => q.get(n).and_then(|b| mended(b)).is_some_and(|t| parse_xml(t.as_bytes()).is_ok()),
            "untyped" => tree(q, CT).is_some_and(|t| t.name == "Types"),
            _ => false,
        };
        c.check(!must, &format!("left-broken:{}", x.split(' ').next().unwrap()), || format!("{x} is not repaired"), || inp.into());
    }
    // the rest is left alone
    for (n, b) in q {
        let Some(a) = after.get(n) else {
            c.fail("part-lost", format!("{n} is gone"), inp);
            continue;
        };
        if a != b {
            c.check(want.iter().any(|w| w.1.contains(n)), "changed", || format!("{n} changed; wrong was {wnames:?}"), || inp.into());
        }
    }
    for n in after.keys().filter(|n| !q.contains_key(*n)) {
        c.check(wnames.contains(&format!("missing {n}")), "part-invented", || format!("{n} appeared"), || inp.into());
    }
    for (n, b) in q.iter().filter(|(n, _)| n.ends_with(".xml") || n.ends_with(".rels")) {
        if tree(q, n).is_some() {
            if !c.check(tree(&after, n).is_some(), "made-ill-formed", || format!("{n} was well-formed: {:?}", after.get(n).map(|b| String::from_utf8_lossy(b).into_owned())), || inp.into()) {
                return;
            }
        } else if !wnames.iter().any(|x| x.starts_with("missing")) {
            let m = mended(b).filter(|m| parse_xml(m.as_bytes()).is_ok());
            if let Some(a) = after.get(n) {
                match m {
                    // later repairs of the same part may add to it
                    Some(m) => {
                        if want.iter().filter(|w| w.1.contains(n)).count() == 1 {
                            c.check(*a == m.as_bytes(), "mended-text", || format!("{n} becomes {:?}", String::from_utf8_lossy(a)), || inp.into());
                        }
                    }
                    None => {
                        c.check(a == b, "unmendable-changed", || format!("{n} cannot be mended and changed"), || inp.into());
                    }
                }
            }
        }
    }
    // relationships: the broken ones go, the rest stays
    for f in rel_files(q) {
        let (Some(x), Some(y)) = (tree(q, &f), tree(&after, &f)) else { continue };
        let broken: Vec<usize> = inside(q, &f).iter().filter(|r| rest.iter().chain(&mended_names).any(|w| *w == format!("broken {f} {} {}", r.1, r.3))).map(|r| r.0).collect();
        // a part that came back is no broken target, but was one when found
        let kept: Vec<Node> = x.kids.iter().enumerate().filter(|(k, _)| !broken.contains(k)).map(|(_, n)| bare(n)).collect();
        let ok = y.kids.len() >= kept.len() && kept.iter().zip(&y.kids).all(|(a, b)| same(a, b));
        c.check(ok, "relationships", || format!("{f}: {:?} for {:?}", y.kids.iter().map(|k| &k.attrs).collect::<Vec<_>>(), kept.iter().map(|k| &k.attrs).collect::<Vec<_>>()), || inp.into());
        for k in y.kids.iter().skip(kept.len()) {
            let t = Pkg::resolve(&source(&f), k.attr("Target").unwrap_or(""));
            c.check(f == RELS && mended_names.contains(&format!("unlisted {t}")), "relationship-invented", || format!("{f}: {:?}", k.attrs), || inp.into());
            c.check(y.kids.iter().filter(|o| o.attr("Id") == k.attr("Id")).count() == 1, "relationship-id", || format!("{f}: {:?} is not the only one", k.attrs), || inp.into());
        }
    }
    // content types
    if let (Some(x), Some(y)) = (tree(q, CT), tree(&after, CT)) {
        let ok = y.kids.len() >= x.kids.len() && x.kids.iter().zip(&y.kids).all(|(a, b)| same(&bare(a), b));
        c.check(ok, "content-types", || format!("{:?}", y.kids.iter().map(|k| &k.attrs).collect::<Vec<_>>()), || inp.into());
        let more: Vec<String> = y.kids.iter().skip(x.kids.len()).map(|k| format!("untyped {}", k.attr("PartName").unwrap_or("?").trim_start_matches('/'))).collect();
        c.check(more.iter().all(|m| wnames.contains(m)), "content-type-invented", || format!("{more:?}"), || inp.into());
    }
    // the presentation: entries of lost slides go, entries of found slides come, in order
    if let (Some(x), Some(y)) = (tree(q, PRES), tree(&after, PRES)) {
        c.check(same(&without_sld_ids(&x), &bare(&without_sld_ids(&y))), "presentation", || "more than the slide list changed".into(), || inp.into());
        let gone: Vec<String> = inside(q, RELS).iter().filter(|r| wnames.contains(&format!("broken {RELS} {} {}", r.1, r.3))).map(|r| r.1.clone()).collect();
        let kept: Vec<Node> = x.all("p:sldId").into_iter().filter(|s| !gone.iter().any(|g| s.attr("r:id") == Some(g))).cloned().collect();
        let now: Vec<Node> = y.all("p:sldId").into_iter().cloned().collect();
        let ok = now.len() >= kept.len() && kept.iter().zip(&now).all(|(a, b)| same(&bare(a), b));
        c.check(ok, "slide-list", || format!("{:?} for {:?}", now.iter().map(|k| &k.attrs).collect::<Vec<_>>(), kept.iter().map(|k| &k.attrs).collect::<Vec<_>>()), || inp.into());
        if ok {
            let tg: BTreeMap<String, String> = inside(&after, RELS).into_iter().map(|r| (r.1, r.3)).collect();
            let new: Vec<String> = now[kept.len()..].iter().map(|s| tg.get(s.attr("r:id").unwrap_or("")).cloned().unwrap_or_default()).collect();
            let wantn: Vec<String> = slide_parts(q).into_iter().filter(|s| mended_names.contains(&format!("unlisted {s}"))).collect();
            c.check(new == wantn, "slides-listed", || format!("{new:?} for {wantn:?}"), || inp.into());
            for s in &now[kept.len()..] {
                let id = s.attr("id").and_then(|i| i.parse::<u64>().ok()).unwrap_or(0);
                c.check((256..1 << 31).contains(&id) && now.iter().filter(|o| o.attr("id") == s.attr("id")).count() == 1, "slide-id", || format!("slide id {id} in {:?}", now.iter().map(|k| &k.attrs).collect::<Vec<_>>()), || inp.into());
            }
            if !new.is_empty() {
                let order = ["p:sldMasterIdLst", "p:notesMasterIdLst", "p:handoutMasterIdLst", "p:sldIdLst", "p:sldSz", "p:notesSz"];
                let at: Vec<usize> = y.kids.iter().filter_map(|k| order.iter().position(|o| *o == k.name)).collect();
                c.check(at.windows(2).all(|w| w[0] < w[1]), "presentation-order", || format!("{:?}", y.kids.iter().map(|k| &k.name).collect::<Vec<_>>()), || inp.into());
            }
        }
    }
    if want.is_empty() {
        c.check(res.is_valid && after == *q, "valid-package-changed", || "a package without issues was changed".into(), || inp.into());
    }
    // what is saved is what was repaired; saving twice and repairing again changes nothing
    let Some(Ok(out)) = c.guard("repair-panics", inp, || rep.to_bytes()) else {
        c.fail("save", "cannot be saved", inp);
        return;
    };
    match Pkg::open(&out) {
        Ok(p) => {
            c.check(p.parts == after, "saved", || "the saved package is another one".into(), || inp.into());
        }
        Err(e) => c.fail("saved", e, inp),
    }
    if res.is_valid {
        let again = rep.repair();
        c.check(again.issues_found.is_empty() && parts(&rep) == after, "again", || "a second repair found more".into(), || inp.into());
    }
}
pub fn run(c: &mut Ctx) {
    c.rule = "random decks as written, respelled, and with up to three of seventeen kinds of damage or harmless change; found issues compared with an independent search, each part after repair compared with the damaged one; non-trivial: two slides or more".into();
    let mut n = 0;
    while c.upto(n, 2500) {
        n += 1;
        let d = genr::deck(&mut c.rng);
        let inp = d.desc();
        let Ok(b) = p_package::write(&d, false) else { continue };
        let Ok(p) = Pkg::open(&b) else { continue };
        c.case(&inp, d.slides.len() > 1);
        check(c, &p.parts, &inp);
        let r = wrong(&p.parts);
        c.check(r.is_empty(), "written-deck", || format!("{r:?}"), || inp.clone());
        for _ in 0..4 {
            let mut q = p.parts.clone();
            let mut log = vec![];
            for _ in 0..c.rng.range(1, 3) {
                if let Some(w) = damage(&mut q, &mut c.rng) {
                    log.push(w);
                }
            }
            for n in [CT, RELS, PRES, "_rels/.rels", "ppt/slides/_rels/slide1.xml.rels"] {
                if c.rng.chance(1, 3) && q.get(n).is_some_and(|b| std::str::from_utf8(b).is_ok()) {
                    respell(&mut q, &mut c.rng, n);
                    log.push(format!("{n} respelled"));
                }
            }
            check(c, &q, &format!("{log:?}; deck {inp}"));
        }
        if n % 4 == 0 {
            let mut x = b.clone();
            x.truncate(c.rng.below(b.len()));
            c.guard("repair-panics", "cut-off archive", || {
                if let Ok(mut r) = PptxRepair::from_bytes(&x) {
                    r.repair();
                }
            });
            // arbitrary texts in the parts that are parsed
            let mut q = p.parts.clone();
            for n in NEEDED {
                if c.rng.chance(1, 2) {
                    q.insert(n.to_string(), c.rng.text(30).into_bytes());
                }
            }
            check(c, &q, &format!("arbitrary texts; deck {inp}"));
        }
    }
}
