//! C02 and C03: what the generator writes, read back by an independent reader
use crate::ctx::Ctx;
use crate::genr::{self, Deck};
use crate::pkg::{part_kind, Node, Pkg};
use ppt_rs::generator::*;
use std::io::Cursor;

pub struct Lazy(pub Vec<SlideContent>);
impl LazySlideSource for Lazy {
    fn slide_count(&self) -> usize {
        self.0.len()
    }
    fn generate_slide(&self, i: usize) -> Option<SlideContent> {
        self.0.get(i).cloned()
    }
}
pub fn write(d: &Deck, lazy: bool) -> Result<Vec<u8>, String> {
    if lazy {
        create_pptx_lazy_to_writer(Cursor::new(vec![]), &d.title, Box::new(Lazy(d.slides.clone())), d.settings.clone()).map(|c| c.into_inner()).map_err(|e| e.to_string())
    } else {
        create_pptx_with_content_to_writer(Cursor::new(vec![]), &d.title, &d.slides, d.settings.clone()).map(|c| c.into_inner()).map_err(|e| e.to_string())
    }
}
fn texts(n: &Node) -> Vec<String> {
    n.all("a:t").iter().map(|t| t.deep_text()).collect()
}
fn shows_bullets(l: SlideLayout) -> bool {
    matches!(l, SlideLayout::TitleAndContent | SlideLayout::TwoColumn | SlideLayout::TitleAndBigContent)
}
/// (kind, text) the slide part has to carry as a text run
fn expected(s: &SlideContent) -> Vec<(&'static str, String)> {
    let mut v = vec![];
    if s.layout != SlideLayout::Blank {
        v.push(("title", s.title.clone()));
    }
    if s.layout == SlideLayout::TitleAndContent && s.table.is_some() {
        for r in &s.table.as_ref().unwrap().rows {
            for c in &r.cells {
                if !c.h_merge && !c.v_merge {
                    v.push(("cell", c.text.clone()));
                }
            }
        }
    } else if shows_bullets(s.layout) {
        if s.bullets.is_empty() {
            v.extend(s.content.iter().map(|b| ("bullet", b.clone())));
        } else {
            v.extend(s.bullets.iter().map(|b| ("bullet", b.text.clone())));
        }
    }
    for sh in &s.shapes {
        if let Some(t) = &sh.text {
            if t.starts_with('[') && t.contains("]\n") {
                v.extend(t.lines().map(|l| ("shape", l.to_string())));
            } else {
                v.push(("shape", t.clone()));
            }
        }
    }
    for c in &s.connectors {
        if let Some(l) = &c.label {
            v.push(("connector", l.clone()));
        }
    }
    v
}
pub fn check_deck(c: &mut Ctx, d: &Deck, lazy: bool, wf: bool, desc: &str) {
    let Some(r) = c.guard("generator-panics", desc, || write(d, lazy)) else { return };
    let b = match r {
        Ok(b) => b,
        Err(e) => {
            c.fail("generator-error", format!("generation failed: {e}"), desc);
            return;
        }
    };
    let p = match Pkg::open(&b) {
        Ok(p) => p,
        Err(e) => {
            c.fail("unreadable-package", e, desc);
            return;
        }
    };
    if wf {
        for (n, e) in p.ill_formed() {
            c.fail(&format!("ill-formed:{}", part_kind(&n)), format!("{n}: {e}\n{}", p.text(&n).chars().take(600).collect::<String>()), desc);
        }
    } else {
        for (k, w) in p.problems() {
            c.fail(&k, w, desc);
        }
    }
    let sl = p.slides();
    if !wf {
        c.check(sl.len() == d.slides.len(), "slide-count", || format!("{} slides listed, {} given", sl.len(), d.slides.len()), || desc.into());
    }
    let mut chart_no = 0;
    for (i, s) in d.slides.iter().enumerate() {
        let Some(name) = sl.get(i) else { break };
        let Some(x) = p.xml(name) else { continue };
        if wf {
            let have = texts(&x);
            let mut rest = have.clone();
            for (k, t) in expected(s) {
                if t.is_empty() {
                    continue;
                }
                match rest.iter().position(|h| h == &t) {
                    Some(j) => {
                        rest.remove(j);
                    }
                    None => c.fail(&format!("text-lost:{k}"), format!("slide {}: {k} text {t:?} is not a text run of {name}; runs: {have:?}", i + 1), desc),
                }
            }
            // order of the bullets
            if shows_bullets(s.layout) && !(s.layout == SlideLayout::TitleAndContent && s.table.is_some()) {
                let b: Vec<&str> = if s.bullets.is_empty() { s.content.iter().map(|x| x.as_str()).collect() } else { s.bullets.iter().map(|x| x.text.as_str()).collect() };
                let got: Vec<&str> = have.iter().skip(1).take(b.len()).map(|x| x.as_str()).collect();
                c.check(got == b, "bullet-order", || format!("slide {}: bullets {b:?} written as {got:?}", i + 1), || desc.into());
            }
            if s.layout == SlideLayout::TitleAndContent {
                if let Some(t) = &s.table {
                    let rows: Vec<Vec<String>> = x.all("a:tr").iter().map(|r| r.all("a:tc").iter().map(|c| c.all("a:t").iter().map(|t| t.deep_text()).collect::<String>()).collect()).collect();
                    let want: Vec<Vec<String>> = t.rows.iter().map(|r| r.cells.iter().map(|c| c.text.clone()).collect()).collect();
                    let same = rows.len() == want.len() && rows.iter().zip(&want).enumerate().all(|(ri, (a, b))| a.len() == b.len() && a.iter().zip(b).enumerate().all(|(ci, (x, y))| x == y || (t.rows[ri].cells[ci].h_merge || t.rows[ri].cells[ci].v_merge) && x.is_empty()));
                    c.check(same, "table-text", || format!("slide {}: table {want:?} written as {rows:?}", i + 1), || desc.into());
                }
            }
            let alts: Vec<Option<&str>> = x.all("p:pic").iter().map(|p| p.first("p:cNvPr").and_then(|n| n.attr("descr"))).collect();
            let want: Vec<Option<&str>> = s.images.iter().filter(|i| i.get_bytes().is_some()).map(|i| i.alt_text.as_deref()).collect();
            c.check(alts == want, "alt-text", || format!("slide {}: alt texts {want:?} written as {alts:?}", i + 1), || desc.into());
            for cb in &s.code_blocks {
                let all: Vec<String> = x.all("p:sp").iter().filter(|n| n.first("p:cNvPr").and_then(|n| n.attr("name")) == Some("Code Block")).map(|n| n.all("a:p").iter().map(|p| texts(p).concat()).collect::<Vec<_>>().join("\n")).collect();
                let norm = |t: &str| t.trim_end().split('\n').map(|l| l.trim_end().to_string()).collect::<Vec<_>>();
                c.check(all.iter().any(|a| norm(a) == norm(&cb.code)), "text-lost:code", || format!("slide {}: code {:?} written as {all:?}", i + 1, cb.code), || desc.into());
            }
            if let Some(n) = &s.notes {
                let nt = p.rels_of(name).iter().find(|r| r.ty == "notesSlide").map(|r| Pkg::resolve(name, &r.target));
                let t = nt.and_then(|n| p.xml(&n)).map(|x| texts(&x)).unwrap_or_default();
                c.check(t.contains(n), "text-lost:notes", || format!("slide {}: notes {n:?} not in {t:?}", i + 1), || desc.into());
            }
            for ch in &s.charts {
                chart_no += 1;
                let Some(cx) = p.xml(&format!("ppt/charts/chart{chart_no}.xml")) else { continue };
                let t = texts(&cx);
                c.check(ch.title.is_empty() || t.first() == Some(&ch.title), "text-lost:chart-title", || format!("chart title {:?} written as {:?}", ch.title, t.first()), || desc.into());
            }
            let fr: Vec<&Node> = x.all("p:cNvPr").into_iter().filter(|n| n.kids.iter().any(|k| k.name == "a:hlinkClick")).collect();
            let hl: Vec<&Hyperlink> = s.shapes.iter().filter_map(|s| s.hyperlink.as_ref()).filter(|h| h.r_id.is_some()).collect();
            for (n, h) in fr.iter().zip(&hl) {
                let k = n.kid("a:hlinkClick").unwrap();
                c.check(k.attr("tooltip") == h.tooltip.as_deref(), "tooltip", || format!("tooltip {:?} written as {:?}", h.tooltip, k.attr("tooltip")), || desc.into());
                let t = p.rels_of(name).into_iter().find(|r| Some(r.id.as_str()) == h.r_id.as_deref()).map(|r| r.target);
                c.check(t.as_deref() == Some(h.action.relationship_target().as_str()), "link-target", || format!("link {:?} written as {t:?}", h.action), || desc.into());
            }
            c.check(fr.len() == hl.len(), "link-count", || format!("{} links given, {} written", hl.len(), fr.len()), || desc.into());
        } else {
            // every reference of slide i leads to the part made from slide i's own content
            let rels = p.rels_of(name);
            let pics = x.all("a:blip");
            for (k, im) in s.images.iter().filter(|i| i.get_bytes().is_some()).enumerate() {
                let want = im.get_bytes();
                let got = pics.get(k).and_then(|b| b.attr("r:embed")).and_then(|r| p.target(name, r)).and_then(|t| p.parts.get(&t.1).cloned());
                c.check(want.is_none() || got == want, "picture-bytes", || format!("slide {} picture {}: shows {} bytes, caller gave {:?}", i + 1, k + 1, got.map(|g| g.len() as i64).unwrap_or(-1), want.map(|w| w.len())), || desc.into());
            }
            let cr = x.all("c:chart");
            c.check(cr.len() == s.charts.len(), "chart-count", || format!("slide {}: {} charts given, {} placed", i + 1, s.charts.len(), cr.len()), || desc.into());
            for (k, ch) in s.charts.iter().enumerate() {
                let t = cr.get(k).and_then(|b| b.attr("r:id")).and_then(|r| p.target(name, r)).and_then(|t| p.xml(&t.1)).map(|x| texts(&x));
                c.check(ch.title.is_empty() && t.is_some() || t.as_ref().and_then(|t| t.first()) == Some(&ch.title), "chart-target", || format!("slide {} chart {}: leads to a chart titled {:?}, caller gave {:?}", i + 1, k + 1, t.as_ref().and_then(|t| t.first()), ch.title), || desc.into());
            }
            let ns: Vec<String> = rels.iter().filter(|r| r.ty == "notesSlide").map(|r| Pkg::resolve(name, &r.target)).collect();
            c.check(ns.len() == usize::from(s.notes.is_some()), "notes-rel", || format!("slide {}: notes={:?} but {} notes relationships", i + 1, s.notes.is_some(), ns.len()), || desc.into());
            if let (Some(n), Some(part)) = (&s.notes, ns.first()) {
                let t = p.xml(part).map(|x| texts(&x)).unwrap_or_default();
                c.check(t.contains(n), "notes-target", || format!("slide {}: notes lead to {part} with {t:?}", i + 1), || desc.into());
                let back: Vec<String> = p.rels_of(part).iter().filter(|r| r.ty == "slide").map(|r| Pkg::resolve(part, &r.target)).collect();
                c.check(back == vec![name.clone()], "notes-back", || format!("{part} points back to {back:?}, expected {name}"), || desc.into());
            }
            if let Some(ik) = &s.ink_annotations {
                let t = x.first("p:contentPart").and_then(|n| n.attr("r:id")).and_then(|r| p.target(name, r)).map(|t| p.text(&t.1));
                c.check(t.as_deref() == Some(ik.part_xml().as_str()), "ink-target", || format!("slide {}: ink leads to another part", i + 1), || desc.into());
            }
            let lay: Vec<String> = rels.iter().filter(|r| r.ty == "slideLayout").map(|r| r.target.clone()).collect();
            c.check(lay.len() == 1 && lay[0].ends_with(&format!("slideLayout{}.xml", s.layout.layout_number())), "layout-rel", || format!("slide {}: layout relationships {lay:?}", i + 1), || desc.into());
        }
    }
    if wf {
        if let Some(x) = p.xml("docProps/core.xml") {
            let t = x.first("dc:title").map(|n| n.deep_text());
            c.check(t.as_deref() == Some(d.title.as_str()), "text-lost:core-title", || format!("document title {:?} written as {t:?}", d.title), || desc.into());
        }
        if let Some(x) = p.xml("docProps/app.xml") {
            let t: Vec<String> = x.all("vt:lpstr").iter().map(|n| n.deep_text()).collect();
            for (i, s) in d.slides.iter().enumerate() {
                let w = if s.title.trim().is_empty() { format!("Slide {}", i + 1) } else { s.title.clone() };
                c.check(t.contains(&w), "text-lost:app-title", || format!("slide title {w:?} not in app properties {t:?}"), || desc.into());
            }
            let n = x.first("Slides").map(|n| n.deep_text());
            c.check(n == Some(d.slides.len().to_string()), "app-count", || format!("app properties say {n:?} slides"), || desc.into());
        }
        if let Some(s) = &d.settings {
            if let (Some(t), Some(x)) = (&s.theme, p.xml("ppt/theme/theme1.xml")) {
                c.check(x.attr("name") == Some(t.name.as_str()), "text-lost:theme-name", || format!("theme name {:?} written as {:?}", t.name, x.attr("name")), || desc.into());
                let f: Vec<Option<&str>> = ["a:majorFont", "a:minorFont"].iter().map(|k| x.first(k).and_then(|n| n.kid("a:latin")).and_then(|n| n.attr("typeface"))).collect();
                c.check(f == vec![Some(t.fonts.major.as_str()), Some(t.fonts.minor.as_str())], "text-lost:theme-font", || format!("theme fonts {:?} written as {f:?}", t.fonts), || desc.into());
            }
            if let (Some(f), Some(x)) = (&s.embedded_fonts, p.xml("ppt/presentation.xml")) {
                let got: Vec<&str> = x.all("p:font").iter().filter_map(|n| n.attr("typeface")).collect();
                for w in f.fonts() {
                    c.check(got.contains(&w.typeface.as_str()), "text-lost:typeface", || format!("font {:?} not in {got:?}", w.typeface), || desc.into());
                }
            }
        }
    }
    if !wf && !lazy {
        // the two writing paths agree on what is in the package
        if let Some(Ok(b2)) = c.guard("generator-panics", desc, || write(d, true)) {
            if let Ok(q) = Pkg::open(&b2) {
                let (a, b): (Vec<_>, Vec<_>) = (p.parts.keys().collect(), q.parts.keys().collect());
                c.check(a == b, "lazy-parts", || format!("eager-only {:?}, lazy-only {:?}", a.iter().filter(|x| !b.contains(x)).collect::<Vec<_>>(), b.iter().filter(|x| !a.contains(x)).collect::<Vec<_>>()), || desc.into());
                for (n, x) in &p.parts {
                    if n.starts_with("docProps/core") || n.starts_with("[Content") {
                        continue;
                    }
                    if let Some(y) = q.parts.get(n) {
                        c.check(x == y, &format!("lazy-differs:{}", part_kind(n)), || format!("{n} differs between eager and lazy generation"), || desc.into());
                    }
                }
            }
        }
    }
}
pub fn run(c: &mut Ctx, wf: bool) {
    c.rule = "random decks over the public builder API (1-12 slides; all layouts, tables, shapes, links, images, charts, connectors, code, notes, ink, themes, fonts, print and signature settings), eager and lazy paths; non-trivial: at least one slide with a table, picture, chart, notes or shape".into();
    let mut n = 0;
    while c.upto(n, 600) {
        n += 1;
        // small decks first, so that a failing input is small
        let mut d = genr::deck(&mut c.rng);
        if n < 250 {
            d.slides.truncate(1 + n % 2);
            if n % 3 != 0 { d.settings = None }
            if n % 2 == 0 {
                let mut s = SlideContent::new(&d.slides[0].title).layout(d.slides[0].layout);
                match c.rng.below(8) {
                    0 => s.shapes = vec![genr::shape(&mut c.rng)],
                    1 => s.images = vec![genr::image(&mut c.rng)],
                    2 => s.charts = vec![genr::chart(&mut c.rng)],
                    3 => s.connectors = vec![genr::connector(&mut c.rng)],
                    4 => s.bullets = vec![genr::bullet(&mut c.rng)],
                    5 => s.table = Some(genr::table(&mut c.rng)),
                    6 => s.notes = Some(c.rng.text(8)),
                    _ => s.ink_annotations = Some(genr::ink(&mut c.rng)),
                }
                d.slides = vec![s];
            }
        }
        let k = d.slides.len() as u32;
        for s in &mut d.slides {
            for sh in &mut s.shapes {
                if let Some(h) = &mut sh.hyperlink {
                    if let HyperlinkAction::Slide(n) = &mut h.action {
                        *n = (*n).min(k);
                    }
                }
            }
        }
        let desc = d.desc();
        let nt = d.slides.iter().any(|s| s.table.is_some() || !s.images.is_empty() || !s.charts.is_empty() || s.notes.is_some() || !s.shapes.is_empty());
        c.case(&desc, nt);
        check_deck(c, &d, n % 3 == 0, wf, &desc);
    }
    // slide counts only
    for k in [0usize, 1, 2, 10, 37] {
        let t = c.rng.text(9);
        let desc = format!("create_pptx({t:?}, {k})");
        c.case(&desc, k > 0);
        let Some(Ok(b)) = c.guard("generator-panics", &desc, || create_pptx(&t, k)) else { continue };
        if let Ok(p) = Pkg::open(&b) {
            for (kk, w) in p.problems() {
                if wf == kk.starts_with("ill-formed") {
                    c.fail(&kk, w, &desc);
                }
            }
            c.check(p.slides().len() == k, "slide-count", || format!("{} slides", p.slides().len()), || desc.clone());
        }
    }
}
