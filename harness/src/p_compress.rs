//! C16: compression takes out what was asked for and nothing else
use crate::ctx::{Ctx, Rng};
use crate::genr;
use crate::p_package;
use crate::p_repair::{source, tree};
use crate::p_valid::{pack, spelled, sub, Parts};
use crate::pkg::{Node, Pkg};
use ppt_rs::opc::compress::{analyze_pptx, compress_pptx, compress_pptx_in_memory, CompressionLevel, CompressionOptions};
use std::collections::BTreeSet;

const CT: &str = "[Content_Types].xml";
const PROPS: &[&str] = &["docProps/core.xml", "docProps/app.xml", "docProps/custom.xml", "docProps/thumbnail.jpeg"];

fn blank(s: &str) -> bool {
    s.chars().all(|c| matches!(c, ' ' | '\t' | '\r' | '\n'))
}
fn is_xml(n: &str) -> bool {
    n.ends_with(".xml") || n.ends_with(".rels")
}
fn internal(k: &Node) -> Option<&str> {
    if k.attr("TargetMode") == Some("External") { None } else { k.attr("Target") }
}
/// the media that stay
fn media_used(p: &Parts) -> Option<BTreeSet<String>> {
    let mut used = BTreeSet::new();
    for f in p.keys().filter(|n| n.ends_with(".rels")) {
        let x = tree(p, f)?;
        x.walk(&mut |k| {
            if let Some(t) = internal(k) {
                used.insert(Pkg::resolve(&source(f), t));
            }
        });
    }
    Some(used)
}
/// same elements and attributes; text the same, or dropped where it lays out elements. `min`: it must be dropped there
fn same(a: &Node, b: &Node, min: bool, preserve: bool) -> Result<(), String> {
    let preserve = preserve || a.attr("xml:space") == Some("preserve");
    if a.name != b.name || a.attrs != b.attrs || a.kids.len() != b.kids.len() {
        return Err(format!("<{} {:?}> with {} children becomes <{} {:?}> with {}", a.name, a.attrs, a.kids.len(), b.name, b.attrs, b.kids.len()));
    }
    let layout = !a.kids.is_empty() && blank(&a.text) && !preserve;
    let ok = if layout { if min { b.text.is_empty() } else { blank(&b.text) } } else { a.text == b.text };
    if !ok {
        return Err(format!("text {:?} of <{}> becomes {:?}", a.text, a.name, b.text));
    }
    a.kids.iter().zip(&b.kids).try_for_each(|(x, y)| same(x, y, min, preserve))
}
/// a tree without the elements that speak of removed parts
fn rid(n: &Node, base: &str, gone: &dyn Fn(&str) -> bool) -> Node {
    let mut n = n.clone();
    n.kids.retain(|k| {
        !(k.name == "Relationship" && internal(k).is_some_and(|t| gone(&Pkg::resolve(base, t))) || k.name == "Override" && k.attr("PartName").and_then(|x| x.strip_prefix('/')).is_some_and(gone))
    });
    n.kids = n.kids.iter().map(|k| rid(k, base, gone)).collect();
    n
}
fn options(r: &mut Rng) -> CompressionOptions {
    match r.below(8) {
        0 => CompressionOptions::default(),
        1 => CompressionOptions::maximum(),
        2 => CompressionOptions::web(),
        _ => CompressionOptions::new()
            .with_level(*r.pick(&[CompressionLevel::Light, CompressionLevel::Medium, CompressionLevel::Aggressive, CompressionLevel::Custom(7)]))
            .with_unused_media_removal(r.chance(1, 2))
            .with_properties_removal(r.chance(1, 2))
            .with_notes_removal(r.chance(1, 2))
            .with_comments_removal(r.chance(1, 2))
            .with_xml_optimization(r.chance(1, 2))
            .with_target_size(*r.pick(&[0, 1, 1000, 20_000, 30_000, 1 << 30])),
    }
}
fn check(c: &mut Ctx, p: &Parts, o: &CompressionOptions, inp: &str) {
    let b = pack(p);
    let Some(Ok((out, res))) = c.guard("compress-panics", inp, || compress_pptx_in_memory(&b, o)) else {
        c.fail("compress", "the package was not compressed", inp);
        return;
    };
    let q = match Pkg::open(&out) {
        Ok(q) => q,
        Err(e) => return c.fail("unreadable", e, inp),
    };
    let inp = format!("{o:?} of {inp}");
    let inp = inp.as_str();
    c.check(q.names.len() == q.parts.len(), "twice", || format!("{:?}", q.names), || inp.into());
    let q = q.parts;
    // what goes
    let used = media_used(p);
    let media: Vec<&String> = p.keys().filter(|n| n.starts_with("ppt/media/") && !n.ends_with(".rels")).collect();
    let spare = |n: &str| o.remove_unused_media && n.starts_with("ppt/media/") && !n.ends_with(".rels") && used.as_ref().is_some_and(|u| !u.contains(n));
    let named = |n: &str| o.remove_properties && PROPS.contains(&n);
    let note = |n: &str| o.remove_notes && p.contains_key(n) && n.starts_with("ppt/notesSlides/");
    let gone = |n: &str| named(n) || note(n);
    for n in p.keys() {
        let goes = spare(n) || gone(n);
        let kind = if n.starts_with("ppt/media/") { "media" } else { "part" };
        c.check(goes || q.contains_key(n), &format!("{kind}-lost"), || format!("{n} is gone"), || inp.into());
        c.check(!goes || !q.contains_key(n), &format!("{kind}-kept"), || format!("{n} is still there"), || inp.into());
    }
    for n in q.keys() {
        c.check(p.contains_key(n), "part-invented", || format!("{n} appeared"), || inp.into());
    }
    let nspare = media.iter().filter(|n| spare(n)).count();
    c.check(res.unused_media_removed == nspare, "media-count", || format!("{} reported, {nspare} unused", res.unused_media_removed), || inp.into());
    // what stays
    for (n, b) in p {
        let Some(a) = q.get(n) else { continue };
        let t = std::str::from_utf8(b);
        let refers = n == CT || n.ends_with(".rels");
        let (Some(x), true) = (tree(p, n), refers || o.optimize_xml && is_xml(n)) else {
            c.check(a == b, if is_xml(n) { "xml-changed" } else { "bytes-changed" }, || format!("{n} changed"), || inp.into());
            continue;
        };
        let x = if refers { rid(&x, &source(n), &gone) } else { (*x).clone() };
        let Some(y) = tree(&q, n) else {
            c.fail("ill-formed", format!("{n} is not well-formed any more"), inp);
            continue;
        };
        // comments lie between the blanks
        let min = o.optimize_xml && is_xml(n) && t.is_ok_and(|t| !t.contains("<!--") && t.matches("<?").count() <= 1 && !t.contains("CDATA") && !t.contains("&#"));
        if let Err(e) = same(&x, &y, min, false) {
            c.fail(if refers { "references" } else { "text" }, format!("{n}: {e}"), inp);
        }
        if !o.optimize_xml && tree(p, n).is_some_and(|z| same(&z, &x, false, false).is_ok()) {
            c.check(a == b, "xml-changed", || format!("{n} changed"), || inp.into());
        }
        if min && b.len() < a.len() {
            c.fail("grown", format!("{n} grew from {} to {}", b.len(), a.len()), inp);
        }
    }
    // what is reported
    let pct = (b.len() as f64 - out.len() as f64) / b.len() as f64 * 100.0;
    c.check(res.original_size == b.len() && res.compressed_size == out.len() && (res.reduction_percent - pct).abs() < 1e-6, "sizes", || format!("{res:?} for {} and {}", b.len(), out.len()), || inp.into());
    c.check(res.target_achieved == (o.target_size == 0 || out.len() <= o.target_size) && res.images_compressed == 0, "target", || format!("{res:?}"), || inp.into());
    // compressing again
    if let Some(Ok((again, r2))) = c.guard("compress-panics", inp, || compress_pptx_in_memory(&out, o)) {
        let z = Pkg::open(&again).map(|z| z.parts).unwrap_or_default();
        // a picture that only removed notes showed goes the second time
        let same = z.iter().all(|(n, b)| q.get(n) == Some(b)) && q.keys().filter(|n| !z.contains_key(*n)).count() == r2.unused_media_removed;
        c.check(same, "again", || "compressing again changed more".into(), || inp.into());
    }
}
fn files(c: &mut Ctx, p: &Parts, o: &CompressionOptions, inp: &str) {
    let dir = std::env::temp_dir().join(format!("vharness-cmp-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let (f, g) = (dir.join("in.pptx"), dir.join("out.pptx"));
    let b = pack(p);
    std::fs::write(&f, &b).unwrap();
    let _ = std::fs::remove_file(&g);
    let r = c.guard("compress-panics", inp, || compress_pptx(&f, &g, o));
    let m = compress_pptx_in_memory(&b, o);
    if let (Some(Ok(r)), Ok((mem, r2))) = (r, m) {
        let out = std::fs::read(&g).unwrap_or_default();
        let x = Pkg::open(&out).map(|x| x.parts).unwrap_or_default();
        let y = Pkg::open(&mem).map(|x| x.parts).unwrap_or_default();
        c.check(x == y && !x.is_empty(), "file-and-memory", || "the file differs from what compression in memory gives".into(), || inp.into());
        c.check(std::fs::read(&f).is_ok_and(|n| n == b), "input-file", || "the input file changed".into(), || inp.into());
        c.check(r.original_size == b.len() && r.compressed_size == out.len() && r.unused_media_removed == r2.unused_media_removed && r.target_achieved == (o.target_size == 0 || out.len() <= o.target_size), "sizes", || format!("{r:?}"), || inp.into());
    } else {
        c.fail("compress", "the file was not compressed", inp);
    }
    if let Some(Ok(a)) = c.guard("analyze-panics", inp, || analyze_pptx(&f)) {
        let img = |n: &str| n.starts_with("ppt/media/") && [".png", ".jpg", ".jpeg"].iter().any(|e| n.ends_with(e));
        let xml = |n: &str| !n.starts_with("ppt/media/") && is_xml(n);
        let sum = |t: &dyn Fn(&str) -> bool| p.iter().filter(|(n, _)| t(n)).map(|(_, b)| b.len()).sum::<usize>();
        let num = |t: &dyn Fn(&str) -> bool| p.keys().filter(|n| t(n)).count();
        let want = (b.len(), sum(&img), sum(&xml), sum(&|n| !img(n) && !xml(n)), num(&img), num(&|n| n.starts_with("ppt/slides/slide") && n.ends_with(".xml")), num(&|n| n.starts_with("ppt/media/") && !img(n)));
        let got = (a.total_size, a.images_size, a.xml_size, a.other_size, a.image_count, a.slide_count, a.media_count);
        c.check(got == want, "analysis", || format!("{got:?} for {want:?}"), || inp.into());
    }
    let _ = std::fs::remove_file(&f);
    let _ = std::fs::remove_file(&g);
    let _ = std::fs::remove_dir(&dir);
}
fn slides(p: &Parts) -> Vec<String> {
    p.keys().filter(|n| n.starts_with("ppt/slides/slide") && n.ends_with(".xml")).cloned().collect()
}
/// put blanks and odd things where they matter
fn alter(q: &mut Parts, r: &mut Rng) -> Option<String> {
    let keys: Vec<String> = q.keys().filter(|n| is_xml(n)).cloned().collect();
    let pool = slides(q);
    Some(match r.below(12) {
        0 => {
            let n = r.pick(&keys).clone();
            let k = r.next();
            sub(q, &n, |t| {
                let mut r = Rng(k);
                let mut o = String::new();
                for (i, x) in t.split("><").enumerate() {
                    if i > 0 {
                        o.push('>');
                        if r.chance(1, 2) && !x.starts_with('!') {
                            o.push_str(*r.pick(&["\n", "\n    ", " ", "\t", "\r\n  "]));
                        }
                        o.push('<');
                    }
                    o.push_str(x);
                }
                Some(o)
            });
            format!("blanks in {n}")
        }
        1 | 2 => {
            let n = if pool.is_empty() { return None } else { r.pick(&pool).clone() };
            let w = *r.pick(&[" ", "  ", "\n", "\t", "\u{a0}", " \" ", "'", "   a  b ", " a\n\n b", "\" \"", "\u{2003}"]);
            let front = r.chance(1, 2);
            sub(q, &n, |t| Some(if front { t.replacen("<a:t>", &format!("<a:t>{w}"), 2) } else { t.replace("</a:t>", &format!("{w}</a:t>")) }));
            format!("{w:?} in the text of {n}")
        }
        3 => {
            let n = if pool.is_empty() { return None } else { r.pick(&pool).clone() };
            let k = r.below(5);
            sub(q, &n, |t| Some(t.replacen("<a:p>", ["<a:p>\u{a0}", "<a:p><!-- a --> ", "<a:p xml:space=\"preserve\"> ", "<a:p> <![CDATA[ ]]> ", "<a:p>\n<?x y?>\n"][k], 1)));
            format!("something between elements ({k}) in {n}")
        }
        4 => {
            let t = *r.pick(&[
                "<a><b> x </b> <c/>\n<d>  </d> tail </a>",
                "<a xml:space=\"preserve\"> <b> <c/> </b> </a>",
                "<a> <b xml:space='preserve'> <c/> </b> <d> <e/> </d> <f/>\n</a>",
                "\n<a> <b/> </a>\n\n",
                "<?xml version=\"1.0\"?>\n<!-- one -->\n<a>\n<b/>\n</a>\n<!-- two -->\n",
                "<a q=\" '> <' \"> <b/> </a>",
                "<a>\u{a0}<b/>\u{a0}</a>",
                "<a>\n<b/>&#32;<c/>\n</a>",
                "<a> <b> <c> <d/> x </c> </b> </a>",
            ]);
            q.insert("customXml/item1.xml".into(), t.as_bytes().to_vec());
            format!("customXml {t:?}")
        }
        5 | 6 => {
            let n = *r.pick(&["ppt/media/spare.png", "ppt/media/image1.png", "ppt/media/image10.png", "ppt/media/x y.emf", "ppt/media/clip.mp4", "ppt/media/deep/a.jpg", "ppt/media/_rels/svg.xml.rels", "ppt/media/A.PNG"]);
            q.entry(n.into()).or_insert_with(|| if n.ends_with(".rels") { b"<Relationships xmlns='http://schemas.openxmlformats.org/package/2006/relationships'/>".to_vec() } else { b"x".to_vec() });
            let how = r.below(9);
            let holder = r.pick(&["ppt/slides/_rels/slide1.xml.rels", "ppt/slideLayouts/_rels/slideLayout1.xml.rels", "ppt/slideMasters/_rels/slideMaster1.xml.rels", "ppt/_rels/presentation.xml.rels", "_rels/.rels", "ppt/charts/_rels/chart77.xml.rels", "ppt/theme/_rels/theme1.xml.rels"]).to_string();
            if how > 0 {
                let src = source(&holder);
                let up = "../".repeat(src.matches('/').count());
                let target = match how {
                    1 | 2 => format!("{up}{n}"),
                    3 => format!("/{n}"),
                    4 if src.starts_with("ppt/") && src.matches('/').count() == 2 => format!("../{}", &n[4..]),
                    5 => format!("./{up}{n}"),
                    6 => format!("{up}{n}.x"),
                    _ => format!("{up}{n}"),
                };
                let mode = if how == 7 { " TargetMode=\"External\"" } else if how == 8 { " TargetMode='Internal'" } else { "" };
                q.entry(holder.clone()).or_insert_with(|| b"<?xml version=\"1.0\"?>\n<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"></Relationships>".to_vec());
                sub(q, &holder, |t| Some(t.replacen("</Relationships>", &format!(" <Relationship Id=\"rIdM{how}\" Type=\"t/image\" Target=\"{target}\"{mode}/></Relationships>"), 1)));
                format!("{n} for {holder} ({how})")
            } else {
                if let Some(s) = pool.first() {
                    sub(q, s, |t| Some(t.replacen("</a:t>", " spare.png ppt/media/spare.png</a:t>", 1)));
                }
                format!("{n} added")
            }
        }
        7 => {
            q.insert("docProps/custom.xml".into(), b"<Properties> <p/> </Properties>".to_vec());
            q.insert("docProps/thumbnail.jpeg".into(), b"j".to_vec());
            sub(q, "_rels/.rels", |t| Some(t.replacen("</Relationships>", "<Relationship Id=\"rId71\" Type=\"t/custom-properties\" Target=\"/docProps/custom.xml\"/>\n <Relationship Id=\"rId72\" Type=\"t/thumbnail\" Target=\"docProps/thumbnail.jpeg\"/><Relationship Id=\"rId73\" Type=\"t/x\" TargetMode=\"External\" Target=\"docProps/app.xml\"/></Relationships>", 1)));
            sub(q, CT, |t| Some(t.replacen("</Types>", "<Override PartName=\"/docProps/custom.xml\" ContentType=\"c\"/><Override PartName=\"docProps/custom.xml\" ContentType=\"d\"/></Types>", 1)));
            "more properties".into()
        }
        8 => {
            let k = r.range(1, 3);
            let part = format!("ppt/notesSlides/notesSlide{k}.xml");
            if q.contains_key(&part) {
                return None;
            }
            q.insert(part.clone(), b"<p:notes xmlns:p='p'> <p:cSld/> </p:notes>".to_vec());
            q.insert(format!("ppt/notesSlides/_rels/notesSlide{k}.xml.rels"), format!("<Relationships xmlns='http://schemas.openxmlformats.org/package/2006/relationships'><Relationship Id='rId1' Type='t/slide' Target='../slides/slide{k}.xml'/></Relationships>").into_bytes());
            let own = format!("ppt/slides/_rels/slide{k}.xml.rels");
            sub(q, &own, |t| Some(t.replacen("</Relationships>", &format!("<Relationship Id=\"rId99\" Type=\"t/notesSlide\" Target=\"../notesSlides/notesSlide{k}.xml\"/></Relationships>"), 1)));
            sub(q, CT, |t| Some(t.replacen("</Types>", &format!("<Override ContentType=\"n\" PartName=\"/{part}\"/></Types>"), 1)));
            format!("{part} added")
        }
        9 => {
            let n = r.pick(&keys).clone();
            let k = r.below(4);
            let b = q.get_mut(&n)?;
            match k {
                0 => b.insert(b.len() / 2, 0xff),
                1 => b.truncate(b.len() * 2 / 3),
                2 => b.extend_from_slice(b"  <x/>"),
                _ => b.extend_from_slice(b" & "),
            }
            format!("{n} damaged ({k})")
        }
        10 => {
            let n = r.pick(&keys).clone();
            let x = spelled(q.get(&n)?, r)?;
            q.insert(n.clone(), x);
            format!("{n} respelled")
        }
        _ => {
            let n = *r.pick(&["data.bin", "ppt/embeddings/x.xlsx", "ppt/vml.vml", "ppt/notesSlidesX/a.xml", "xppt/media/a.png", "docProps/app.xml.bak"]);
            q.insert(n.into(), b" < > ".to_vec());
            format!("{n} added")
        }
    })
}
pub fn run(c: &mut Ctx) {
    c.rule = "random decks as written and with up to four of twelve kinds of change (blanks, texts, media, properties, notes, damage), under random options; every part compared with the one before by an independent reader; non-trivial: two slides or more".into();
    let mut n = 0;
    while c.upto(n, 2500) {
        n += 1;
        let d = genr::deck(&mut c.rng);
        let inp = d.desc();
        let Ok(b) = p_package::write(&d, false) else { continue };
        let Ok(p) = Pkg::open(&b) else { continue };
        let mut q = p.parts;
        for k in 0..4 {
            c.case(&inp, d.slides.len() > 1);
            let mut notes = vec![];
            if k > 0 {
                for _ in 0..c.rng.range(1, 4) {
                    if let Some(x) = alter(&mut q, &mut c.rng) {
                        notes.push(x);
                    }
                }
            }
            let inp = format!("{} [{}]", inp, notes.join("; "));
            let o = options(&mut c.rng);
            check(c, &q, &o, &inp);
            if k == 1 && n % 4 == 0 {
                files(c, &q, &o, &inp);
            }
        }
    }
}
