//! C14: pictures are read, kept and written as they are
use crate::ctx::{Ctx, Rng};
use crate::genr::Deck;
use crate::pkg::Pkg;
use ppt_rs::generator::*;

/// independent reading of base64: all six-bit groups, then the bytes they spell
fn unb64(t: &str) -> Option<Vec<u8>> {
    let t: Vec<char> = t.trim().chars().filter(|c| !['\n', '\r', ' '].contains(c)).collect();
    let digits: Vec<char> = t.iter().cloned().take_while(|c| *c != '=').collect();
    let pad = t.len() - digits.len();
    if !t[digits.len()..].iter().all(|c| *c == '=') || digits.len() % 4 == 1 || pad > (4 - digits.len() % 4) % 4 {
        return None;
    }
    let mut bits = vec![];
    for d in &digits {
        let v = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/".chars().position(|c| c == *d)?;
        for k in (0..6).rev() {
            bits.push(v >> k & 1);
        }
    }
    Some(bits.chunks_exact(8).map(|b| b.iter().fold(0u8, |a, x| a << 1 | *x as u8)).collect())
}
fn b64text(r: &mut Rng) -> (String, Option<Vec<u8>>) {
    let n = *r.pick(&[3usize, 7, 40]);
    let d = r.bytes(n);
    let mut t = crate::b64(&d);
    if r.chance(1, 4) { t = t.trim_end_matches('=').to_string() }
    let mut exact = true;
    for _ in 0..r.below(3) {
        let cs: Vec<char> = t.chars().collect();
        let k = r.below(cs.len() + 1);
        let ws = r.chance(2, 3);
        exact &= ws;
        let x = if ws { *r.pick(&['\n', '\r', ' ']) } else { *r.pick(&['=', '=', '-', '_', 'é', '\t', 'A', '\u{a0}', '.', '*', '@', '[', '`', '{', ',', ':']) };
        t = cs[..k].iter().chain([&x]).chain(&cs[k..]).collect();
    }
    if !exact && r.chance(1, 3) { t.truncate((0..=t.len()).rev().filter(|k| t.is_char_boundary(*k)).nth(r.below(4).min(t.chars().count())).unwrap_or(0)) }
    (t, if exact { Some(d) } else { None })
}
fn be2(v: u32) -> [u8; 2] { (v as u16).to_be_bytes() }
/// a file header of one format with the size it states
pub fn header(r: &mut Rng) -> (Vec<u8>, Option<(u32, u32)>, &'static str) {
    let any = |r: &mut Rng| -> u32 { *r.pick(&[0, 1, 2, 255, 256, 16383, 16384, 65535, 65536, 450_000, 450_971, 16_777_216, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]) };
    let (w, h) = (if r.chance(1, 2) { any(r) } else { r.below(70000) as u32 }, if r.chance(1, 2) { any(r) } else { r.below(70000) as u32 });
    let mut tail = r.bytes(40);
    let (d, s, f) = match r.below(7) {
        0 => {
            let mut d = b"\x89PNG\r\n\x1a\n\0\0\0\rIHDR".to_vec();
            d.extend(w.to_be_bytes());
            d.extend(h.to_be_bytes());
            (d, Some((w, h)), "PNG")
        }
        1 | 2 => {
            let (w, h) = (w & 0xffff, h & 0xffff);
            let mut d = vec![0xff, 0xd8];
            for _ in 0..r.below(5) {
                for _ in 0..if r.chance(1, 6) { r.below(3) } else { 0 } { d.push(0xff) }
                let m = *r.pick(&[0xe0u8, 0xe1, 0xdb, 0xc4, 0xfe, 0xed, 0xe2, 0xc8, 0xcc, 0xdd]);
                let mut body = r.bytes(30);
                // a thumbnail inside the segment has a frame header of its own
                if r.chance(1, 2) { body.extend([0xff, 0xc0, 0, 17, 8, 0, 1, 0, 2, 3]) }
                if r.chance(1, 4) { body.extend(vec![0x11; *r.pick(&[254usize, 255, 256, 4000])]) }
                d.extend([0xff, m]);
                d.extend(be2(body.len() as u32 + 2));
                d.extend(body);
            }
            if r.chance(1, 6) { d.push(0xff) }
            d.extend([0xff, *r.pick(&[0xc0u8, 0xc2])]);
            d.extend([0, 17, 8]);
            d.extend(be2(h));
            d.extend(be2(w));
            d.extend([3, 1, 0x22, 0, 2, 0x11, 1, 3, 0x11, 1]);
            (d, Some((w, h)), "JPEG")
        }
        3 => {
            let (w, h) = (w & 0xffff, h & 0xffff);
            let mut d = r.pick(&[*b"GIF87a", *b"GIF89a"]).to_vec();
            d.extend((w as u16).to_le_bytes());
            d.extend((h as u16).to_le_bytes());
            (d, Some((w, h)), "GIF")
        }
        4 => {
            let h = (h & 0x7fff_ffff).max(1);
            let mut d = b"BM\0\0\0\0\0\0\0\0\x36\0\0\0\x28\0\0\0".to_vec();
            d.extend(w.to_le_bytes());
            d.extend(if r.chance(1, 3) { (-(h as i32)).to_le_bytes() } else { h.to_le_bytes() });
            (d, Some((w, h)), "BMP")
        }
        5 => {
            let (w, h) = (w & 0x3fff, h & 0x3fff);
            let mut d = b"RIFF\0\0\0\0WEBPVP8 \0\0\0\0\x30\x01\0\x9d\x01\x2a".to_vec();
            let s = (r.below(4) as u32) << 14;
            d.extend(((w | s) as u16).to_le_bytes());
            d.extend((h as u16).to_le_bytes());
            (d, Some((w, h)), "WEBP")
        }
        _ => {
            let (w, h) = (w & 0x3fff, h & 0x3fff);
            let mut d = b"RIFF\0\0\0\0WEBPVP8L\0\0\0\0\x2f".to_vec();
            d.extend((w | h << 14 | (r.below(8) as u32) << 28).to_le_bytes());
            tail.extend([0; 10]);
            (d, Some((w + 1, h + 1)), "WEBP")
        }
    };
    let mut d = d;
    d.extend(tail);
    (d, s, f)
}
pub fn run(c: &mut Ctx) {
    c.rule = "base64 texts (with and without padding, white space, damage), file headers of six formats with extreme sizes, thumbnails and cut-off data, random builder chains; non-trivial: a complete header or a non-empty text".into();
    let mut n = 0;
    while c.upto(n, 40000) {
        n += 1;
        let (t, d) = b64text(&mut c.rng);
        c.case(&t, !t.is_empty());
        let want = unb64(&t);
        let i = format!("{t:?}");
        if d.is_some() { assert_eq!(d, want, "harness: base64 oracle") }
        for im in [Image::from_base64(&t, 1, 1, "PNG"), ImageBuilder::base64(&t, "png").build()] {
            if let Some(g) = c.guard("base64-panics", &i, || im.get_bytes()) {
                c.check(g == want, "base64", || format!("decoded to {g:?}, the text means {want:?}"), || i.clone());
            }
        }
    }
    let dir = std::env::temp_dir().join(format!("vharness-img-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut n = 0;
    while c.upto(n, 12000) {
        n += 1;
        let (mut d, mut s, f) = header(&mut c.rng);
        let mut cut = false;
        if c.rng.chance(1, 3) {
            d.truncate(c.rng.below(d.len() + 1));
            cut = true;
        } else if c.rng.chance(1, 5) {
            let k = c.rng.below(d.len());
            d[k] = *c.rng.pick(&[0, 1, 0xff, 0xc0, 0xd8]);
            cut = true;
        }
        if cut { s = None }
        let i = format!("{} bytes {:02x?} ({f} {s:?})", d.len(), &d[..d.len().min(120)]);
        c.case(&i, !cut);
        let p = dir.join(["a.png", "b.jpeg", "c", "d.GIF"][c.rng.below(4)]);
        std::fs::write(&p, &d).unwrap();
        if let Some(g) = c.guard("header-panics", &i, || Image::from_path(&p)) {
            if let Some((w, h)) = s {
                let e = |v: u32| v as u64 * 9525;
                let fits = e(w) <= u32::MAX as u64 && e(h) <= u32::MAX as u64;
                match g {
                    Ok(im) => {
                        c.check(im.format == f, "header-format", || format!("format {}", im.format), || i.clone());
                        c.check(im.width as u64 == e(w).min(u32::MAX as u64) && im.height as u64 == e(h).min(u32::MAX as u64), "header-size", || format!("size {} x {}", im.width, im.height), || i.clone());
                        c.check(im.get_bytes().as_ref() == Some(&d), "file-bytes", || "bytes differ from the file".into(), || i.clone());
                    }
                    Err(x) => { c.check(!fits, "header-refused", || format!("refused: {x}"), || i.clone()); }
                }
            }
        }
        let _ = std::fs::remove_file(&p);
        if let Some(b) = c.guard("auto-panics", &i, || ImageBuilder::auto(d.clone()).build()) {
            if s.is_some() && ["PNG", "JPEG", "GIF"].contains(&f) {
                c.check(b.format == f, "auto-format", || format!("auto takes it for {}", b.format), || i.clone());
            }
            c.check(b.get_bytes().as_ref() == Some(&d), "auto-bytes", || "bytes differ".into(), || i.clone());
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let mut n = 0;
    while c.upto(n, 400) {
        n += 1;
        let mut imgs = vec![];
        let mut want = vec![];
        let mut log = String::new();
        for k in 0..c.rng.range(1, 3) {
            let d = c.rng.bytes(9);
            let f = *c.rng.pick(&["png", "JPG", "jpeg", "GIF", "bmp"]);
            let mut b = ImageBuilder::from_bytes(d.clone(), c.rng.next() as u32, c.rng.next() as u32, f);
            let (mut crop, mut fx): (Option<[f64; 4]>, Vec<&str>) = (None, vec![]);
            let mut at = (0u32, 0u32);
            let mut alt = None;
            for _ in 0..c.rng.below(5) {
                match c.rng.below(8) {
                    0 => { let v: Vec<f64> = (0..4).map(|_| *c.rng.pick(&[0.0, 0.1, 0.25, 0.29, 0.5, 0.00001, 0.333])).collect(); crop = Some([v[0], v[1], v[2], v[3]]); b = b.crop(v[0], v[1], v[2], v[3]); log.push_str(&format!("crop{v:?} ")); }
                    1 => { at = (c.rng.next() as u32, c.rng.next() as u32); b = if c.rng.chance(1, 2) { b.at(at.0, at.1) } else { b.position(at.0, at.1) }; log.push_str("position "); }
                    2 => { b = b.shadow(); fx.push("a:outerShdw"); log.push_str("shadow "); }
                    3 => { b = b.glow(); fx.push("a:glow"); log.push_str("glow "); }
                    4 => { b = b.reflection(); fx.push("a:reflection"); log.push_str("reflection "); }
                    5 => { b = b.soft_edges(); fx.push("a:softEdge"); log.push_str("soft_edges "); }
                    6 => { b = b.inner_shadow(); fx.push("a:innerShdw"); log.push_str("inner_shadow "); }
                    _ => { b = b.blur(); fx.push("a:blur"); log.push_str("blur "); }
                }
            }
            let (w, h) = (c.rng.next() as u32, c.rng.next() as u32);
            let mut im = b.size(w, h).build();
            if c.rng.chance(1, 2) { let t = c.rng.text(6); im = im.with_alt_text(&t); alt = Some(t); }
            if c.rng.chance(1, 3) { im = im.with_effect(images::ImageEffect::Blur); fx.push("a:blur"); }
            log.push_str(&format!("picture {k} {f} alt {alt:?}; "));
            imgs.push(im);
            want.push((d, at, (w, h), crop, fx, alt));
        }
        let mut s = SlideContent::new("t");
        for i in imgs { s = s.add_image(i) }
        c.case(&log, want.len() > 1);
        let d = Deck { title: "t".into(), slides: vec![s], settings: None };
        let Some(Ok(bytes)) = c.guard("write-panics", &log, || crate::p_package::write(&d, false)) else { continue };
        let Ok(p) = Pkg::open(&bytes) else { continue };
        let Some(x) = p.xml("ppt/slides/slide1.xml") else { continue };
        let pics = x.all("p:pic");
        if !c.check(pics.len() == want.len(), "pictures", || format!("{} pictures written", pics.len()), || log.clone()) { continue }
        for (n, (d, at, sz, crop, fx, alt)) in pics.iter().zip(&want) {
            let emb = n.first("a:blip").and_then(|b| b.attr("r:embed")).unwrap_or("");
            let part = p.target("ppt/slides/slide1.xml", emb).map(|t| t.1);
            let got = part.as_ref().and_then(|q| p.parts.get(q));
            c.check(got == Some(d), "picture-bytes", || format!("{emb} leads to {part:?} holding {got:?}, not {d:?}"), || log.clone());
            let box_: Vec<u64> = [("a:off", "x"), ("a:off", "y"), ("a:ext", "cx"), ("a:ext", "cy")].iter().map(|(e, a)| n.first(e).and_then(|v| v.attr(a)).and_then(|v| v.parse().ok()).unwrap_or(u64::MAX)).collect();
            c.check(box_ == vec![at.0 as u64, at.1 as u64, sz.0 as u64, sz.1 as u64], "picture-box", || format!("{box_:?}, given {at:?} {sz:?}"), || log.clone());
            let cr: Vec<f64> = ["l", "t", "r", "b"].iter().map(|a| n.first("a:srcRect").and_then(|v| v.attr(a)).and_then(|v| v.parse::<f64>().ok()).unwrap_or(0.0)).collect();
            let w = crop.unwrap_or([0.0; 4]);
            c.check((0..4).all(|k| (cr[k] - w[k] * 100000.0).abs() <= 1.0), "picture-crop", || format!("{cr:?}, given {w:?}"), || log.clone());
            let e: Vec<String> = n.first("a:effectLst").map(|l| l.kids.iter().map(|k| k.name.clone()).collect()).unwrap_or_default();
            c.check(e.iter().map(|s| s.as_str()).collect::<Vec<_>>() == *fx, "picture-effects", || format!("{e:?}, given {fx:?}"), || log.clone());
            let ds = n.first("p:cNvPr").and_then(|v| v.attr("descr")).map(|s| s.to_string());
            c.check(ds == *alt, "picture-alt", || format!("{ds:?}, given {alt:?}"), || log.clone());
        }
    }
}
