//! C07: identifiers handed out by the library are new
use crate::ctx::Ctx;
use crate::pkg::{parse_xml, Pkg};
use ppt_rs::generator::{Comment, CommentAuthorList, SlideComments};
use ppt_rs::parts::{Part, PresentationPart, RelationshipType, Relationships};
use std::collections::BTreeSet;

fn kind(c: &mut Ctx) -> RelationshipType {
    use RelationshipType::*;
    match c.rng.below(11) {
        0 => OfficeDocument,
        1 => Slide,
        2 => SlideLayout,
        3 => SlideMaster,
        4 => Theme,
        5 => Image,
        6 => Chart,
        7 => CoreProperties,
        8 => ExtendedProperties,
        _ => {
            let o = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/";
            Custom(match c.rng.below(4) {
                0 => format!("{o}{}", *c.rng.pick(&["notesSlide", "hyperlink", "video", "chartUserShapes", "themeOverride", "slideUpdateInfo", "tableStyles", "imageX", "notesMaster", "custom-properties", "slideMasterX"])),
                1 => format!("http://schemas.microsoft.com/office/2011/relationships/{}", *c.rng.pick(&["chartColorStyle", "chartStyle", "slides"])),
                2 => format!("http://x.org/officeDocument/{}", c.rng.word()),
                _ => c.rng.text(12).replace('/', "-") + "_",
            })
        }
    }
}
fn some_id(c: &mut Ctx) -> String {
    match c.rng.below(8) {
        0 => format!("rId{}", u32::MAX - c.rng.below(3) as u32),
        1 => format!("rId00{}", c.rng.below(12)),
        2 => format!("rId{}", 4294967294u64 + c.rng.below(4) as u64),
        3 => c.rng.word(),
        4 => format!("rid{}", c.rng.below(5)),
        5 => "rId0".into(),
        _ => format!("rId{}", c.rng.below(14)),
    }
}
type R = (String, RelationshipType, String);
fn listed(r: &Relationships) -> Vec<R> {
    r.all().iter().map(|x| (x.id.clone(), x.rel_type.clone(), x.target.clone())).collect()
}
pub fn run(c: &mut Ctx) {
    c.rule = "random histories of relationships, slides of a new or a parsed presentation part, comments and authors, whose given ids come from the neighbourhood of the ids the library would hand out; non-trivial: an id given by the caller and one issued after it".into();
    // relationships
    let mut n = 0;
    while c.upto(n, 12000) {
        n += 1;
        let mut m = if c.rng.chance(1, 6) { Relationships::default() } else { Relationships::new() };
        let mut w: Vec<R> = vec![];
        let mut log = "Relationships::new()".to_string();
        let (mut given, mut issued) = (false, false);
        for _ in 0..if c.rng.chance(1, 15) { c.rng.range(12, 50) } else { c.rng.range(1, 8) } {
            let t = kind(c);
            let g = format!("{}.xml{}", c.rng.word(), c.rng.text(3));
            if c.rng.chance(1, 2) {
                log.push_str(&format!(".add({t:?},{g:?})"));
                let Some(id) = c.guard("relationship-add-panics", &log, || m.add(t.clone(), &g)) else { break };
                c.check(!w.iter().any(|x| x.0 == id), "relationship-id-repeated", || format!("add issued {id:?}, which is in use"), || log.clone());
                issued |= given;
                w.push((id.clone(), t, g));
                c.check(m.get(&id).map(|r| (r.id.clone(), r.rel_type.clone(), r.target.clone())).as_ref() == w.last(), "relationship-get", || format!("get({id:?}) does not give the relationship just added"), || log.clone());
            } else {
                let id = some_id(c);
                if w.iter().any(|x| x.0 == id) { continue }
                log.push_str(&format!(".add_with_id({id:?},{t:?},{g:?})"));
                if c.guard("relationship-add-panics", &log, || m.add_with_id(&id, t.clone(), &g)).is_none() { break }
                w.push((id, t, g));
                given = true;
            }
            if !c.check(listed(&m) == w && m.len() == w.len() && m.is_empty() == w.is_empty(), "relationships", || format!("{:?}, expected {w:?}", listed(&m)), || log.clone()) { break }
        }
        let (mut i1, mut i2) = (w.clone(), listed(&m));
        i1.dedup_by(|a, b| a.0 == b.0);
        i2.dedup_by(|a, b| a.0 == b.0);
        for x in &w {
            c.check(m.get(&x.0).map(|r| &r.target) == Some(&x.2), "relationship-get", || format!("get({:?}) gives {:?}", x.0, m.get(&x.0)), || log.clone());
            let byt: Vec<&str> = m.get_by_type(&x.1).iter().map(|r| r.id.as_str()).collect();
            let wt: Vec<&str> = w.iter().filter(|y| y.1 == x.1).map(|y| y.0.as_str()).collect();
            c.check(byt == wt, "relationship-by-type", || format!("get_by_type({:?}) gives {byt:?}, expected {wt:?}", x.1), || log.clone());
        }
        c.check(m.get("nope").is_none(), "relationship-get", || "get(\"nope\") gives something".into(), || log.clone());
        let x = m.to_xml();
        match Relationships::from_xml(&x) {
            Err(e) => c.fail("relationships-unreadable", format!("{e}"), format!("{log} -> {x}")),
            Ok(mut r) => {
                c.check(listed(&r) == w, "relationships-round-trip", || format!("read back {:?}, expected {w:?}", listed(&r)), || log.clone());
                if let Some(id) = c.guard("relationship-add-panics", &format!("from_xml({x}).add"), || r.add(RelationshipType::Slide, "s")) {
                    c.check(!w.iter().any(|x| x.0 == id), "relationship-id-repeated", || format!("add after reading issued {id:?}, which is in use"), || x.clone());
                }
            }
        }
        c.case(&log, given && issued);
    }
    // presentation part
    let mut n = 0;
    while c.upto(n, 3000) {
        n += 1;
        let mut log;
        let mut ids: Vec<u32> = vec![];
        let mut rids: Vec<String> = vec![];
        let mut p;
        let mut used = BTreeSet::new();
        let parsed = c.rng.chance(1, 2);
        if parsed {
            let mut x = String::from("<p:presentation xmlns:p=\"p\" xmlns:r=\"r\">");
            if c.rng.chance(2, 3) {
                let r = some_id(c);
                used.insert(r.clone());
                x.push_str(&format!("<p:sldMasterIdLst><p:sldMasterId id=\"2147483648\" r:id=\"{r}\"/></p:sldMasterIdLst>"));
            }
            x.push_str("<p:sldIdLst>");
            for _ in 0..c.rng.below(6) {
                let id = 256 + c.rng.below(9) as u32;
                let r = some_id(c);
                if ids.contains(&id) || !used.insert(r.clone()) { continue }
                x.push_str(&format!("<p:sldId id=\"{id}\" r:id=\"{r}\"/>"));
                ids.push(id);
                rids.push(r);
            }
            x.push_str("</p:sldIdLst></p:presentation>");
            log = format!("PresentationPart::from_xml({x:?})");
            p = match PresentationPart::from_xml(&x) {
                Ok(p) => p,
                Err(e) => {
                    c.fail("presentation-unreadable", format!("{e}"), log);
                    continue;
                }
            };
        } else {
            log = "PresentationPart::new()".into();
            p = PresentationPart::new();
        }
        for (k, what) in ["slide_master", "theme"].iter().enumerate() {
            if c.rng.chance(1, 3) && (k == 1 || !parsed) {
                let r = some_id(c);
                if used.insert(r.clone()) {
                    log.push_str(&format!(".set_{what}({r:?})"));
                    if k == 0 { p.set_slide_master(&r) } else { p.set_theme(&r) }
                }
            }
        }
        for _ in 0..c.rng.below(6) {
            let r = some_id(c);
            if !used.insert(r.clone()) { continue }
            log.push_str(&format!(".add_slide({r:?})"));
            let Some(id) = c.guard("presentation-panics", &log, || p.add_slide(&r)) else { break };
            c.check(!ids.contains(&id) && id >= 256 && id < 2147483648, "slide-id-repeated", || format!("add_slide issued id {id}; in use: {ids:?}"), || log.clone());
            ids.push(id);
            rids.push(r);
        }
        c.case(&log, parsed && ids.len() > 1);
        let got: Vec<(u32, String)> = p.slides().iter().map(|s| (s.id, s.r_id.clone())).collect();
        let want: Vec<(u32, String)> = ids.iter().cloned().zip(rids.iter().cloned()).collect();
        c.check(got == want && p.slide_count() == want.len(), "presentation-slides", || format!("{got:?}, expected {want:?}"), || log.clone());
        let Some(rels) = c.guard("presentation-panics", &log, || p.create_relationships()) else { continue };
        let l = listed(&rels);
        let set: BTreeSet<&String> = l.iter().map(|x| &x.0).collect();
        c.check(set.len() == l.len(), "presentation-relationship-repeated", || format!("relationships {l:?}"), || log.clone());
        let Ok(x) = p.to_xml() else { continue };
        match parse_xml(x.as_bytes()) {
            Err(e) => c.fail("presentation-ill-formed", e, log.clone()),
            Ok(x) => {
                let w: Vec<(String, String)> = x.all("p:sldId").iter().map(|s| (s.attr("id").unwrap_or("").into(), s.attr("r:id").unwrap_or("").into())).collect();
                c.check(w == want.iter().map(|a| (a.0.to_string(), a.1.clone())).collect::<Vec<_>>(), "presentation-written", || format!("{w:?}, expected {want:?}"), || log.clone());
                for (k, s) in w.iter().enumerate() {
                    let t = rels.get(&s.1);
                    c.check(t.is_some_and(|t| t.rel_type == RelationshipType::Slide && t.target == format!("slides/slide{}.xml", k + 1)), "presentation-slide-reference", || format!("slide {} refers to {t:?}", k + 1), || log.clone());
                }
                for s in x.all("p:sldMasterId") {
                    let t = rels.get(s.attr("r:id").unwrap_or(""));
                    c.check(t.is_some_and(|t| t.rel_type == RelationshipType::SlideMaster), "presentation-master-reference", || format!("the master refers to {t:?}"), || log.clone());
                }
            }
        }
    }
    // comments and their authors
    let mut n = 0;
    while c.upto(n, 4000) {
        n += 1;
        let mut m = SlideComments::new();
        let mut l = CommentAuthorList::new();
        let mut w: Vec<(u32, u32, String)> = vec![];
        let mut names: Vec<String> = vec![];
        let mut log = "SlideComments::new()".to_string();
        let (mut given, mut issued) = (false, false);
        for _ in 0..if c.rng.chance(1, 12) { c.rng.range(10, 60) } else { c.rng.range(1, 9) } {
            let name = c.rng.pick(&["Ann", "ann", "Bob", "B&b", "<c>", "", "é", "D"]).to_string();
            let a = l.get_or_add(&name, "X");
            let e = names.iter().position(|x| *x == name).unwrap_or_else(|| {
                names.push(name.clone());
                names.len() - 1
            });
            log.push_str(&format!("; author {name:?}"));
            c.check(a as usize == e && l.len() == names.len(), "author-id", || format!("author {name:?} got id {a}, expected {e}"), || log.clone());
            c.check(l.get_by_id(a).map(|x| x.name.as_str()) == Some(name.as_str()), "author-lookup", || format!("get_by_id({a}) gives {:?}", l.get_by_id(a)), || log.clone());
            let t = c.rng.text(5);
            if c.rng.chance(1, 3) {
                let i = 1 + c.rng.below(9) as u32;
                if w.iter().any(|x| x.0 == i) { continue }
                log.push_str(&format!(".add(index {i})"));
                m.add(Comment::new(a, &t).index(i));
                w.push((i, a, t));
                given = true;
            } else {
                log.push_str(&format!(".add_comment({t:?})"));
                m.add_comment(a, &t, 3, 4);
                let i = m.comments().last().map(|x| x.index).unwrap_or(0);
                c.check(!w.iter().any(|x| x.0 == i) && i >= 1, "comment-index-repeated", || format!("add_comment issued index {i}, which is in use"), || log.clone());
                w.push((i, a, t));
                issued |= given;
            }
            let got: Vec<(u32, u32, String)> = m.comments().iter().map(|x| (x.index, x.author_id, x.text.clone())).collect();
            if !c.check(got == w && m.len() == w.len(), "comments", || format!("{got:?}, expected {w:?}"), || log.clone()) { break }
        }
        c.case(&log, given && issued);
        match (parse_xml(m.to_xml().as_bytes()), parse_xml(l.to_xml().as_bytes())) {
            (Ok(x), Ok(a)) => {
                let got: Vec<(String, String, String)> = x.all("p:cm").iter().map(|s| (s.attr("idx").unwrap_or("").into(), s.attr("authorId").unwrap_or("").into(), s.all("p:text").iter().map(|t| t.deep_text()).collect())).collect();
                c.check(got == w.iter().map(|x| (x.0.to_string(), x.1.to_string(), x.2.clone())).collect::<Vec<_>>(), "comments-written", || format!("{got:?}, expected {w:?}"), || log.clone());
                let got: Vec<(String, String)> = a.all("p:cmAuthor").iter().map(|s| (s.attr("id").unwrap_or("").into(), s.attr("name").unwrap_or("").into())).collect();
                c.check(got == names.iter().enumerate().map(|(i, n)| (i.to_string(), n.clone())).collect::<Vec<_>>(), "authors-written", || format!("{got:?}, expected {names:?}"), || log.clone());
            }
            (x, a) => c.fail("comments-ill-formed", format!("{:?} {:?}", x.err(), a.err()), log.clone()),
        }
    }
    // objects on slides, slides of a deck
    let mut n = 0;
    while c.upto(n, 200) {
        n += 1;
        let d = crate::genr::deck(&mut c.rng);
        let desc = d.desc();
        c.case(&desc, d.slides.iter().any(|s| s.shapes.iter().any(|x| x.id.is_some()) && s.shapes.len() + s.images.len() + s.connectors.len() > 1));
        let Some(Ok(b)) = c.guard("generator-panics", &desc, || crate::p_package::write(&d, n % 2 == 0)) else { continue };
        let Ok(p) = Pkg::open(&b) else { continue };
        for (k, w) in p.problems() {
            if k.starts_with("duplicate-shape-id") || k == "slide-id" || k == "slide-rid" {
                c.fail(&k, w, desc.clone());
            }
        }
        for part in p.parts.keys().filter(|n| n.ends_with(".rels")) {
            if let Some(x) = p.xml(part) {
                let mut ids: Vec<String> = x.all("Relationship").iter().map(|r| r.attr("Id").unwrap_or("").to_string()).collect();
                ids.sort();
                c.check(ids.windows(2).all(|w| w[0] != w[1]), "relationship-id-repeated-in-part", || format!("{part}: {ids:?}"), || desc.clone());
            }
        }
    }
}
