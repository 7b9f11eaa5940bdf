//! C04: embedded pictures are stored once each and every picture shows its own bytes
use crate::ctx::Ctx;
use crate::genr::Deck;
use crate::pkg::Pkg;
use ppt_rs::generator::media_registry::MediaRegistry;
use ppt_rs::generator::*;
use std::collections::BTreeSet;

fn pool(c: &mut Ctx) -> Vec<(Vec<u8>, &'static str)> {
    let base: Vec<u8> = c.rng.bytes(5);
    let mut v: Vec<(Vec<u8>, &'static str)> = vec![(base.clone(), "png"), (base.clone(), "jpg"), (vec![], "png"), (vec![0], "png"), (vec![0, 0], "gif")];
    let mut b2 = base.clone();
    b2.push(0);
    v.push((b2.clone(), "png"));
    let k = c.rng.below(b2.len());
    b2[k] ^= 1 << c.rng.below(8);
    v.push((b2, "png"));
    let mut long: Vec<u8> = (0..c.rng.range(60, 5000)).map(|i| i as u8).collect();
    v.push((long.clone(), "png"));
    let k = *c.rng.pick(&[0, long.len() / 2, long.len() - 1]);
    long[k] ^= 1;
    v.push((long, "png"));
    v
}
pub fn run(c: &mut Ctx) {
    c.rule = "random registry histories and random decks whose pictures come from a pool of nearly identical byte strings and types; non-trivial: a picture repeated and two different pictures".into();
    let mut n = 0;
    while c.upto(n, 4000) {
        n += 1;
        let p = pool(c);
        let mut m = MediaRegistry::default();
        let mut want: Vec<(Vec<u8>, String)> = vec![];
        let mut log = String::new();
        for _ in 0..if c.rng.chance(1, 12) { c.rng.range(10, 80) } else { c.rng.range(1, 10) } {
            let (b, x) = c.rng.pick(&p).clone();
            let ex = want.iter().position(|e| e.0 == b && e.1 == x);
            let look = c.rng.chance(1, 3);
            log.push_str(&format!("{}({} bytes {:?}.., {x:?}) ", if look { "lookup_number" } else { "image_number" }, b.len(), &b[..b.len().min(6)]));
            if look {
                let g = m.lookup_number(&b, x);
                c.check(g == ex.map(|i| i + 1), "registry-lookup", || format!("lookup gives {g:?}, expected {:?}", ex.map(|i| i + 1)), || log.clone());
            } else {
                let g = m.image_number(&b, x);
                if ex.is_none() {
                    want.push((b.clone(), x.to_string()));
                }
                let e = ex.unwrap_or(want.len() - 1) + 1;
                c.check(g == e, "registry-number", || format!("number {g}, expected {e}"), || log.clone());
            }
            c.check(m.files() == &want[..], "registry-files", || format!("{} files stored, expected {}", m.files().len(), want.len()), || log.clone());
            c.check(m.extensions() == want.iter().map(|w| w.1.clone()).collect::<Vec<_>>(), "registry-extensions", || format!("{:?}", m.extensions()), || log.clone());
        }
        c.case(&log, want.len() > 1);
    }
    let mut n = 0;
    while c.upto(n, 250) {
        n += 1;
        let p = pool(c);
        let mut slides = vec![];
        let mut log = String::new();
        let mut all = vec![];
        for i in 0..c.rng.range(1, 4) {
            let mut s = SlideContent::new(&format!("S{i}"));
            for _ in 0..c.rng.below(4) {
                if c.rng.chance(1, 8) {
                    s = s.add_image(Image::new("/nonexistent/a.png", 5, 5, "PNG"));
                    log.push_str(&format!("slide {i}: unreadable; "));
                    continue;
                }
                let (b, x) = c.rng.pick(&p).clone();
                let f = if x == "jpg" { *c.rng.pick(&["JPEG", "jpg", "JPG"]) } else { x };
                log.push_str(&format!("slide {i}: {} bytes {:?}.. {f}; ", b.len(), &b[..b.len().min(6)]));
                all.push((b.clone(), x.to_string()));
                s = s.add_image(if c.rng.chance(1, 3) { Image::from_base64(&crate::b64(&b), 5, 5, f) } else { Image::from_bytes(b, 5, 5, f) });
            }
            if c.rng.chance(1, 3) { s = s.notes("n") }
            slides.push(s);
        }
        let d = Deck { title: "t".into(), slides, settings: None };
        let uniq: BTreeSet<(Vec<u8>, String)> = all.iter().cloned().collect();
        c.case(&log, all.len() > uniq.len() && uniq.len() > 1);
        for lazy in [false, true] {
            let Some(Ok(b)) = c.guard("generator-panics", &log, || crate::p_package::write(&d, lazy)) else { continue };
            let Ok(p) = Pkg::open(&b) else { continue };
            let media: Vec<(&String, &Vec<u8>)> = p.parts.iter().filter(|x| x.0.starts_with("ppt/media/")).collect();
            let mut got: Vec<(Vec<u8>, String)> = media.iter().map(|(n, b)| ((*b).clone(), n.rsplit('.').next().unwrap_or("").to_string())).collect();
            got.sort();
            let want: Vec<_> = uniq.iter().cloned().collect();
            c.check(got == want, "stored-once", || format!("stored media (bytes, type): {:?}, distinct pictures given: {:?}", got.iter().map(|g| (g.0.len(), &g.1)).collect::<Vec<_>>(), want.iter().map(|g| (g.0.len(), &g.1)).collect::<Vec<_>>()), || format!("lazy={lazy} {log}"));
            for (i, s) in d.slides.iter().enumerate() {
                let name = format!("ppt/slides/slide{}.xml", i + 1);
                let Some(x) = p.xml(&name) else { continue };
                let blips = x.all("a:blip");
                let want: Vec<Vec<u8>> = s.images.iter().filter_map(|i| i.get_bytes()).collect();
                let got: Vec<Vec<u8>> = blips.iter().filter_map(|b| b.attr("r:embed").and_then(|r| p.target(&name, r)).and_then(|t| p.parts.get(&t.1).cloned())).collect();
                c.check(got == want && blips.len() == want.len(), "picture-bytes", || format!("slide {}: pictures show {:?} bytes, given {:?}", i + 1, got.iter().map(|g| g.len()).collect::<Vec<_>>(), want.iter().map(|g| g.len()).collect::<Vec<_>>()), || format!("lazy={lazy} {log}"));
            }
        }
    }
}
