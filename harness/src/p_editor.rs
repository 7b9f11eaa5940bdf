//! C09: editing a presentation changes what was asked for and nothing else
use crate::ctx::Ctx;
use crate::genr::{self, Deck};
use crate::p_package;
use crate::pkg::{Node, Pkg};
use ppt_rs::generator::*;
use ppt_rs::opc::Package;
use ppt_rs::oxml::slide::SlideParser;
use ppt_rs::oxml::{PresentationEditor, PresentationReader};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Cursor;

#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
enum T {
    Part(String),
    Slide(usize),
    Ext(String),
    Notes(Vec<u8>),
}
#[derive(Clone, Debug)]
struct S {
    uid: usize,
    id: Option<u64>, // slide id, when known
    xml: Vec<u8>,
    rels: BTreeMap<String, (String, T)>,
}
fn save(p: &Package) -> Vec<u8> {
    let mut v = Cursor::new(vec![]);
    p.save_writer(&mut v).unwrap();
    v.into_inner()
}
fn slide_ids(p: &Pkg) -> Vec<u64> {
    p.xml("ppt/presentation.xml").map(|x| x.all("p:sldId").iter().map(|e| e.attr("id").and_then(|s| s.parse().ok()).unwrap_or(0)).collect()).unwrap_or_default()
}
/// the slides of a package; `uids` names them
fn view(p: &Pkg, uids: &[usize]) -> Vec<S> {
    let paths = p.slides();
    let ids = slide_ids(p);
    paths
        .iter()
        .enumerate()
        .map(|(k, path)| {
            let rels = p
                .rels_of(path)
                .into_iter()
                .map(|r| {
                    let t = Pkg::resolve(path, &r.target);
                    let to = if r.external || r.target.starts_with("ppaction:") {
                        T::Ext(r.target.clone())
                    } else if r.ty == "notesSlide" {
                        T::Notes(p.parts.get(&t).cloned().unwrap_or_default())
                    } else if let Some(i) = paths.iter().position(|x| *x == t) {
                        T::Slide(uids[i])
                    } else {
                        T::Part(t)
                    };
                    (r.id.clone(), (r.ty.clone(), to))
                })
                .collect();
            S { uid: uids[k], id: ids.get(k).copied(), xml: p.parts.get(path).cloned().unwrap_or_default(), rels }
        })
        .collect()
}
fn strip(n: &Node) -> Node {
    Node {
        name: n.name.clone(),
        attrs: n.attrs.clone(),
        text: if n.name == "p:sldIdLst" || n.name == "p14:sldIdLst" { String::new() } else { n.text.clone() },
        kids: n.kids.iter().filter(|k| k.name != "p:sldId" && k.name != "p14:sldId").map(strip).collect(),
    }
}
fn rest_of(p: &Pkg) -> (BTreeMap<String, Vec<u8>>, String, BTreeSet<String>, BTreeSet<String>) {
    let slides: BTreeSet<String> = p.slides().into_iter().collect();
    let other = p
        .parts
        .iter()
        .filter(|(n, _)| !n.starts_with("ppt/slides/") && !n.starts_with("ppt/notesSlides/") && !matches!(n.as_str(), "ppt/presentation.xml" | "ppt/_rels/presentation.xml.rels" | "[Content_Types].xml"))
        .map(|(n, b)| (n.clone(), b.clone()))
        .collect();
    let pres = p.xml("ppt/presentation.xml").map(|x| format!("{:?}", strip(&x))).unwrap_or_default();
    let rels = p.rels_of("ppt/presentation.xml").iter().filter(|r| r.ty != "slide").map(|r| format!("{r:?}")).collect();
    let ct = p
        .xml("[Content_Types].xml")
        .map(|x| {
            x.kids
                .iter()
                .filter(|k| !k.attr("PartName").is_some_and(|n| slides.contains(n.trim_start_matches('/')) || n.starts_with("/ppt/notesSlides/")))
                .map(|k| format!("{} {:?}", k.name, k.attrs))
                .collect()
        })
        .unwrap_or_default();
    (other, pres, rels, ct)
}
fn plain(c: &mut Ctx) -> SlideContent {
    let mut s = genr::slide(&mut c.rng, 0);
    s.images.clear();
    s.charts.clear();
    s.notes = None;
    s.ink_annotations = None;
    for sh in &mut s.shapes { sh.hyperlink = None }
    s
}
fn alone(s: &SlideContent) -> Option<(Vec<u8>, BTreeMap<String, (String, T)>)> {
    let b = p_package::write(&Deck { title: "x".into(), slides: vec![s.clone()], settings: None }, false).ok()?;
    let p = Pkg::open(&b).ok()?;
    let v = view(&p, &[0]);
    Some((v[0].xml.clone(), v[0].rels.clone()))
}
fn open(b: &[u8], name: &str) -> Result<PresentationEditor, String> {
    let f = std::env::temp_dir().join(format!("{name}.pptx"));
    std::fs::write(&f, b).unwrap();
    let r = PresentationEditor::open(f.to_str().unwrap()).map_err(|e| e.to_string());
    let _ = std::fs::remove_file(&f);
    r
}
fn initial(c: &mut Ctx) -> Option<(Vec<u8>, String)> {
    let mut d = genr::deck(&mut c.rng);
    if c.rng.chance(1, 12) {
        let s = d.slides[0].clone();
        while d.slides.len() < 12 { d.slides.push(s.clone()) }
    }
    let b = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p_package::write(&d, false))).ok()?.ok()?;
    let mut p = Package::open_reader(Cursor::new(b.clone())).ok()?;
    let mut xml = p.get_part_string("ppt/presentation.xml")?;
    let mut how = String::new();
    let n = d.slides.len();
    // slides linking to one another (as other programs write them)
    for k in 1..=n {
        if c.rng.chance(1, 3) {
            let t = c.rng.range(1, n);
            let path = format!("ppt/slides/_rels/slide{k}.xml.rels");
            let dir = if c.rng.chance(1, 2) { "../slides/" } else { "" };
            let r = p.get_part_string(&path)?.replace("</Relationships>", &format!("<Relationship Id=\"rIdGo\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide\" Target=\"{dir}slide{t}.xml\"/></Relationships>"));
            p.add_part(path, r.into_bytes());
            how += &format!("slide {k} links to slide {t}; ");
        }
    }
    // another order of the parts
    if c.rng.chance(1, 4) && n > 1 {
        let ids: Vec<String> = xml.split("<p:sldId ").skip(1).filter_map(|s| s.split("/>").next().map(|x| format!("<p:sldId {x}/>"))).collect();
        let mut o = ids.clone();
        for i in (1..o.len()).rev() {
            let j = c.rng.below(i + 1);
            o.swap(i, j);
        }
        for (k, i) in ids.iter().enumerate() { xml = xml.replacen(i, &format!("<@{k}@>"), 1) }
        for (k, i) in o.iter().enumerate() { xml = xml.replace(&format!("<@{k}@>"), i) }
        how += &format!("slide list {o:?}; ");
    }
    // sections
    if c.rng.chance(1, 3) {
        let l: String = (0..n).map(|k| format!("<p14:sldId id=\"{}\"/>", 256 + k)).collect();
        xml = xml.replacen("<p:extLst>", &format!("<p:extLst><p:ext uri=\"{{521415D9-36F7-43E2-AB2F-B90AF26B5E84}}\"><p14:sectionLst xmlns:p14=\"http://schemas.microsoft.com/office/powerpoint/2010/main\"><p14:section name=\"s\" id=\"{{1}}\"><p14:sldIdLst>{l}</p14:sldIdLst></p14:section></p14:sectionLst></p:ext>"), 1);
        how += "with sections; ";
    }
    p.add_part("ppt/presentation.xml".into(), xml.into_bytes());
    Some((save(&p), format!("{how}{}", d.desc())))
}
fn compare(c: &mut Ctx, e: &PresentationEditor, w: &[S], before: &Pkg, desc: &dyn Fn() -> String) -> bool {
    let b = save(e.package());
    let Ok(p) = Pkg::open(&b) else {
        c.fail("edited-unreadable", "the edited package cannot be opened", desc());
        return false;
    };
    let mut ok = true;
    let base: BTreeSet<(String, String)> = before.problems().into_iter().collect();
    for (k, m) in p.problems() {
        if !base.contains(&(k.clone(), m.clone())) {
            c.fail(&format!("edited-{k}"), m, desc());
            ok = false;
        }
    }
    let paths = p.slides();
    ok &= c.check(e.slide_count() == w.len() && paths.len() == w.len(), "edited-count", || format!("slide_count {}, {} slides listed, expected {}", e.slide_count(), paths.len(), w.len()), desc);
    if !ok { return false }
    let uids: Vec<usize> = w.iter().map(|s| s.uid).collect();
    let got = view(&p, &uids);
    for (k, (g, x)) in got.iter().zip(w).enumerate() {
        ok &= c.check(g.xml == x.xml, "edited-slide", || format!("slide {} is not the slide expected there (or was changed): {} expected {}", k + 1, String::from_utf8_lossy(&g.xml).chars().take(1200).collect::<String>(), String::from_utf8_lossy(&x.xml).chars().take(1200).collect::<String>()), desc);
        ok &= c.check(x.id.is_none() || g.id == x.id, "edited-slide-id", || format!("slide {} has id {:?}, was {:?}", k + 1, g.id, x.id), desc);
        for key in g.rels.keys().chain(x.rels.keys()).collect::<BTreeSet<_>>() {
            let (a, b) = (g.rels.get(key), x.rels.get(key));
            let kind = b.or(a).map(|t| t.0.clone()).unwrap_or_default();
            ok &= c.check(a == b, &format!("edited-rel-{kind}"), || format!("slide {}, relationship {key}: {a:?} expected {b:?}", k + 1), desc);
        }
        for r in p.rels_of(&paths[k]).iter().filter(|r| r.ty == "notesSlide") {
            let np = Pkg::resolve(&paths[k], &r.target);
            for b in p.rels_of(&np).iter().filter(|r| r.ty == "slide") {
                let t = Pkg::resolve(&np, &b.target);
                ok &= c.check(t == paths[k], "edited-notes-back", || format!("notes page {np} of {} leads back to {t}", paths[k]), desc);
            }
        }
        if let Some(Ok(s)) = c.guard("get-panics", "get_slide", || e.get_slide(k).map_err(|e| e.to_string())) {
            let m = SlideParser::parse(&String::from_utf8_lossy(&x.xml)).map(|s| format!("{s:?}")).unwrap_or_default();
            ok &= c.check(format!("{s:?}") == m, "edited-get", || format!("get_slide({k}) gives {s:?}, the slide is {m}"), desc);
        }
    }
    let mut notes = BTreeSet::new();
    for s in &paths {
        for r in p.rels_of(s).iter().filter(|r| r.ty == "notesSlide") {
            let n = Pkg::resolve(s, &r.target);
            ok &= c.check(notes.insert(n.clone()), "edited-notes-shared", || format!("two slides have the notes page {n}"), desc);
        }
    }
    let left: BTreeSet<String> = p.parts.keys().filter(|n| n.starts_with("ppt/notesSlides/") && n.ends_with(".xml")).cloned().collect();
    ok &= c.check(left == notes, "edited-notes-left", || format!("notes pages {left:?}, pages of slides {notes:?}"), desc);
    let sl: BTreeSet<String> = p.parts.keys().filter(|n| n.starts_with("ppt/slides/") && n.ends_with(".xml")).cloned().collect();
    ok &= c.check(sl == paths.iter().cloned().collect(), "edited-slides-left", || format!("slide parts {sl:?}, listed {paths:?}"), desc);
    let (a, b) = (rest_of(&p), rest_of(before));
    let diff: Vec<&String> = a.0.keys().chain(b.0.keys()).filter(|k| a.0.get(*k) != b.0.get(*k)).collect();
    ok &= c.check(diff.is_empty(), "edited-other-part", || format!("parts that are no slides changed: {diff:?}"), desc);
    ok &= c.check(a.1 == b.1, "edited-presentation", || format!("presentation.xml besides the slide list changed: {} was {}", a.1, b.1), desc);
    ok &= c.check(a.2 == b.2, "edited-presentation-rels", || format!("relationships of the presentation besides slides changed: {:?} was {:?}", a.2, b.2), desc);
    ok &= c.check(a.3 == b.3, "edited-types", || format!("content types besides those of slides and notes changed: {:?} / {:?}", a.3.difference(&b.3), b.3.difference(&a.3)), desc);
    if let Some(x) = p.xml("ppt/presentation.xml") {
        let ids = slide_ids(&p);
        for s in x.all("p14:sldId") {
            let v = s.attr("id").and_then(|s| s.parse().ok()).unwrap_or(0);
            ok &= c.check(ids.contains(&v), "edited-section", || format!("a section lists slide id {v}, which no slide has"), desc);
        }
        // slides stay in their sections
        if let Some(y) = before.xml("ppt/presentation.xml") {
            let had: BTreeSet<String> = y.all("p14:sldId").iter().filter_map(|s| s.attr("id").map(|s| s.to_string())).collect();
            let has: BTreeSet<String> = x.all("p14:sldId").iter().filter_map(|s| s.attr("id").map(|s| s.to_string())).collect();
            for s in w {
                if let (Some(i), true) = (s.id, s.uid < before.slides().len()) {
                    let i = i.to_string();
                    ok &= c.check(had.contains(&i) == has.contains(&i), "edited-section-member", || format!("slide id {i} in a section before: {}, after: {}", had.contains(&i), has.contains(&i)), desc);
                }
            }
        }
    }
    let f = std::env::temp_dir().join("ed-out.pptx");
    let fp = f.to_str().unwrap().to_string();
    if e.save(&fp).is_ok() {
        if let Ok(r) = PresentationReader::open(&fp) {
            ok &= c.check(r.slide_count() == w.len(), "reread-count", || format!("{} slides read back, expected {}", r.slide_count(), w.len()), desc);
            for (k, x) in w.iter().enumerate() {
                let m = SlideParser::parse(&String::from_utf8_lossy(&x.xml)).map(|s| format!("{s:?}")).unwrap_or_default();
                let g = r.get_slide(k).map(|s| format!("{s:?}")).unwrap_or_default();
                ok &= c.check(g == m, "reread-slide", || format!("slide {} read back as {g}, expected {m}", k + 1), desc);
            }
        } else {
            c.fail("reread", "the saved presentation cannot be read", desc());
        }
    } else {
        c.fail("save", "save failed", desc());
    }
    let _ = std::fs::remove_file(&f);
    ok
}
pub fn run(c: &mut Ctx) {
    c.rule = "random decks (notes, pictures, charts, links between slides, sections, slide lists out of part order) edited by random histories of add/insert/update/remove/duplicate/reorder with valid and invalid positions; after every operation slides, their relationships, notes, sections and all other parts are compared with a model by an independent package reader; non-trivial: at least one accepted operation".into();
    let mut n = 0;
    while c.upto(n, 160) {
        n += 1;
        let Some((b, d)) = initial(c) else { continue };
        let before = Pkg::open(&b).unwrap();
        let count = before.slides().len();
        let mut w = view(&before, &(0..count).collect::<Vec<_>>());
        let mut next = count;
        let mut log = String::new();
        let Some(Ok(mut e)) = c.guard("open-panics", &d, || open(&b, "ed-in")) else {
            c.fail("open", "a generated deck cannot be opened for editing", &*d);
            continue;
        };
        if !compare(c, &e, &w, &before, &|| format!("opened: {d}")) { continue }
        let steps = c.rng.range(1, 8);
        for _ in 0..steps {
            let l = w.len();
            let i = if c.rng.chance(1, 8) { l + c.rng.below(3) } else { c.rng.below(l.max(1)) };
            let j = if c.rng.chance(1, 8) { l + c.rng.below(3) } else { c.rng.below(l.max(1)) };
            let mut m = w.clone();
            let (res, want): (Option<Result<Option<usize>, String>>, Option<Option<usize>>);
            match c.rng.below(6) {
                k @ (0 | 1 | 2) => {
                    let s = plain(c);
                    let Some((xml, rels)) = alone(&s) else { continue };
                    if k == 0 {
                        log += &format!("add({:?}); ", s.title);
                        m.push(S { uid: next, id: None, xml, rels });
                        want = Some(Some(l));
                        res = c.guard("edit-panics", &format!("{log}{d}"), || e.add_slide(s).map(Some).map_err(|e| e.to_string()));
                    } else if k == 1 {
                        log += &format!("insert({i}, {:?}); ", s.title);
                        want = if i <= l { m.insert(i, S { uid: next, id: None, xml, rels }); Some(Some(i)) } else { None };
                        res = c.guard("edit-panics", &format!("{log}{d}"), || e.insert_slide(i, s).map(Some).map_err(|e| e.to_string()));
                    } else {
                        log += &format!("update({i}, {:?}); ", s.title);
                        want = if i < l { m[i].xml = xml; Some(None) } else { None };
                        res = c.guard("edit-panics", &format!("{log}{d}"), || e.update_slide(i, s).map(|_| None).map_err(|e| e.to_string()));
                    }
                    next += 1;
                }
                3 => {
                    log += &format!("remove({i}); ");
                    want = if i < l {
                        let u = m.remove(i).uid;
                        for s in &mut m {
                            for t in s.rels.values_mut() {
                                if t.1 == T::Slide(u) { t.1 = T::Ext("NULL".into()) }
                            }
                        }
                        Some(None)
                    } else { None };
                    res = c.guard("edit-panics", &format!("{log}{d}"), || e.remove_slide(i).map(|_| None).map_err(|e| e.to_string()));
                }
                4 => {
                    log += &format!("duplicate({i}); ");
                    want = if i < l {
                        let mut s = m[i].clone();
                        s.uid = next;
                        s.id = None;
                        next += 1;
                        m.insert(i + 1, s);
                        Some(Some(i + 1))
                    } else { None };
                    res = c.guard("edit-panics", &format!("{log}{d}"), || e.duplicate_slide(i).map(Some).map_err(|e| e.to_string()));
                }
                _ => {
                    log += &format!("reorder({i}, {j}); ");
                    want = if i < l && j < l {
                        let s = m.remove(i);
                        m.insert(j, s);
                        Some(None)
                    } else { None };
                    res = c.guard("edit-panics", &format!("{log}{d}"), || e.reorder_slide(i, j).map(|_| None).map_err(|e| e.to_string()));
                }
            }
            let Some(res) = res else { break };
            c.case(&format!("{log}{d}"), want.is_some());
            let desc = || format!("{log}on {d}");
            if !c.check(res.clone().ok() == want, "edit-result", || format!("{res:?} expected {want:?}"), desc) { break }
            if want.is_some() { w = m }
            if !compare(c, &e, &w, &before, &desc) { break }
            // new slides have an id now
            let p = Pkg::open(&save(e.package())).unwrap();
            for (s, i) in w.iter_mut().zip(slide_ids(&p)) { s.id = Some(i) }
        }
    }
    // what the editor does not take over from the content it is given
    let png = ImageBuilder::from_bytes(vec![0x89, 0x50, 0x4e, 0x47, 13, 10, 26, 10, 1], 100, 100, "png").build();
    let ch = ChartBuilder::new("c", ChartType::Bar).categories(vec!["a"]).add_series(ChartSeries::new("s", vec![1.0])).build();
    for (key, s) in [
        ("new-slide-picture", SlideContent::new("t").add_image(png)),
        ("new-slide-chart", SlideContent::new("t").add_chart(ch)),
        ("new-slide-notes", SlideContent::new("t").notes("remember")),
    ] {
        let b = p_package::write(&Deck { title: "x".into(), slides: vec![SlideContent::new("one")], settings: None }, false).unwrap();
        let Ok(mut e) = open(&b, "ed-known") else { continue };
        if e.add_slide(s).is_err() { continue }
        let p = Pkg::open(&save(e.package())).unwrap();
        let kinds: Vec<String> = p.rels_of("ppt/slides/slide2.xml").iter().map(|r| r.ty.clone()).collect();
        let want = match key { "new-slide-picture" => "image", "new-slide-chart" => "chart", _ => "notesSlide" };
        c.check(kinds.iter().any(|k| k == want), key, || format!("add_slide with a {want}: the slide has relationships {kinds:?} only"), || "one slide, then add_slide".into());
    }
}
