//! C13: colour notations and colour arithmetic
use crate::ctx::{Ctx, Rng};
use crate::genr::Deck;
use crate::pkg::{Node, Pkg};
use ppt_rs::elements::{Color, RgbColor};
use ppt_rs::core::ToXml;
use ppt_rs::generator::*;
use ppt_rs::helpers::{self, ColorValue};

fn notation(r: &mut Rng) -> String {
    let n = if r.chance(1, 6) { r.below(10) } else { *r.pick(&[6usize, 6, 6, 8, 3]) };
    let mut s = String::new();
    for _ in 0..r.below(3) { s.push('#') }
    let odd = r.chance(1, 3);
    for _ in 0..n {
        s.push(if odd && r.chance(1, 3) { *r.pick(&['é', '中', '+', '-', ' ', 'g', 'G', '#', '@', '`', '/', ':', '\u{7f}', '😀', 'x']) } else { *r.pick(&['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b', 'c', 'd', 'e', 'f', 'A', 'B', 'C', 'D', 'E', 'F']) });
    }
    if r.chance(1, 20) { s.push('#') }
    s
}
/// the meaning of a notation of `n` digits
fn meaning(s: &str, n: usize) -> Option<Vec<u8>> {
    let t: Vec<char> = s.chars().skip_while(|c| *c == '#').collect();
    if t.len() != n || !t.iter().all(|c| c.is_ascii_hexdigit()) {
        return None;
    }
    Some(t.chunks(2).map(|p| (p[0].to_digit(16).unwrap() * 16 + p[1].to_digit(16).unwrap()) as u8).collect())
}
fn vals(x: &Node) -> Vec<String> {
    x.all("a:srgbClr").iter().map(|n| n.attr("val").unwrap_or("").to_string()).collect()
}
pub fn run(c: &mut Ctx) {
    c.rule = "random texts around the two colour notations (length, alphabet, non-ASCII characters, signs, repeated '#'), all channel values, random and extreme amounts; non-trivial: a text of six or eight characters".into();
    let named: &[(&str, ColorValue, [u8; 3])] = &[
        ("red", helpers::red(), [255, 0, 0]), ("green", helpers::green(), [0, 255, 0]), ("blue", helpers::blue(), [0, 0, 255]), ("yellow", helpers::yellow(), [255, 255, 0]), ("cyan", helpers::cyan(), [0, 255, 255]),
        ("magenta", helpers::magenta(), [255, 0, 255]), ("white", helpers::white(), [255, 255, 255]), ("black", helpers::black(), [0, 0, 0]), ("gray", helpers::gray(), [128, 128, 128]), ("grey", helpers::grey(), [128, 128, 128]),
        ("light_gray", helpers::light_gray(), [211, 211, 211]), ("light_grey", helpers::light_grey(), [211, 211, 211]), ("dark_gray", helpers::dark_gray(), [64, 64, 64]), ("dark_grey", helpers::dark_grey(), [64, 64, 64]), ("silver", helpers::silver(), [192, 192, 192]),
        ("orange", helpers::orange(), [255, 165, 0]), ("purple", helpers::purple(), [128, 0, 128]), ("pink", helpers::pink(), [255, 192, 203]), ("brown", helpers::brown(), [165, 42, 42]), ("navy", helpers::navy(), [0, 0, 128]), ("teal", helpers::teal(), [0, 128, 128]),
        ("olive", helpers::olive(), [128, 128, 0]), ("maroon", helpers::maroon(), [128, 0, 0]), ("lime", helpers::lime(), [0, 255, 0]), ("aqua", helpers::aqua(), [0, 255, 255]),
        ("material_red", helpers::material_red(), [0xF4, 0x43, 0x36]), ("material_pink", helpers::material_pink(), [0xE9, 0x1E, 0x63]), ("material_purple", helpers::material_purple(), [0x9C, 0x27, 0xB0]), ("material_indigo", helpers::material_indigo(), [0x3F, 0x51, 0xB5]),
        ("material_blue", helpers::material_blue(), [0x21, 0x96, 0xF3]), ("material_cyan", helpers::material_cyan(), [0, 0xBC, 0xD4]), ("material_teal", helpers::material_teal(), [0, 0x96, 0x88]), ("material_green", helpers::material_green(), [0x4C, 0xAF, 0x50]),
        ("material_lime", helpers::material_lime(), [0xCD, 0xDC, 0x39]), ("material_amber", helpers::material_amber(), [0xFF, 0xC1, 0x07]), ("material_orange", helpers::material_orange(), [0xFF, 0x98, 0]), ("material_brown", helpers::material_brown(), [0x79, 0x55, 0x48]),
        ("material_gray", helpers::material_gray(), [0x9E, 0x9E, 0x9E]), ("material_grey", helpers::material_grey(), [0x9E, 0x9E, 0x9E]), ("corporate_blue", helpers::corporate_blue(), [0x15, 0x65, 0xC0]), ("corporate_green", helpers::corporate_green(), [0x2E, 0x7D, 0x32]),
        ("corporate_red", helpers::corporate_red(), [0xC6, 0x28, 0x28]), ("corporate_orange", helpers::corporate_orange(), [0xEF, 0x6C, 0]),
    ];
    for (n, v, w) in named {
        c.check([v.r, v.g, v.b] == *w && v.a == 255, "named", || format!("{n}() is {v:?}"), || n.to_string());
    }
    let mut n = 0;
    while c.upto(n, 60000) {
        n += 1;
        let s = notation(&mut c.rng);
        let k = s.chars().filter(|c| *c != '#').count();
        c.case(&s, k == 6 || k == 8);
        let six = meaning(&s, 6);
        let eight = meaning(&s, 8);
        let d = format!("{s:?}");
        if let Some(r) = c.guard("rgb-panics", &d, || RgbColor::from_hex(&s)) {
            c.check(r.as_ref().map(|x| vec![x.r, x.g, x.b]) == six, "rgb-reads", || format!("RgbColor::from_hex gives {r:?}, the notation means {six:?}"), || d.clone());
            if let Some(x) = r {
                let t: String = s.chars().skip_while(|c| *c == '#').collect::<String>().to_uppercase();
                c.check(x.to_hex() == t, "rgb-round", || format!("read and written as {}", x.to_hex()), || d.clone());
                c.check(x.to_xml() == format!("<a:srgbClr val=\"{t}\"/>"), "rgb-xml", || x.to_xml(), || d.clone());
            }
        }
        if let Some(r) = c.guard("color-panics", &d, || Color::from_hex(&s)) {
            let w = six.as_ref().map(|v| Color::rgb(v[0], v[1], v[2]));
            c.check(r == w, "color-reads", || format!("Color::from_hex gives {r:?}"), || d.clone());
        }
        if let Some(r) = c.guard("helper-panics", &d, || helpers::hex(&s)) {
            if let Some(v) = &six {
                c.check(r == Color::rgb(v[0], v[1], v[2]), "helper-reads", || format!("hex() gives {r:?}"), || d.clone());
            }
            let t = s.trim_start_matches('#');
            if t.len() != 6 || !t.is_ascii() {
                c.check(r == Color::rgb(0, 0, 0), "helper-fallback", || format!("hex() gives {r:?} for a text that is no colour"), || d.clone());
            }
        }
        if let Some(r) = c.guard("value-panics", &d, || ColorValue::from_hex(&s)) {
            let w = six.as_ref().map(|v| (v[0], v[1], v[2], 255)).or(eight.as_ref().map(|v| (v[0], v[1], v[2], v[3])));
            if let Some(w) = w {
                c.check((r.r, r.g, r.b, r.a) == w, "value-reads", || format!("ColorValue::from_hex gives {r:?}"), || d.clone());
            }
            let t = s.trim_start_matches('#');
            if t.len() != 6 && t.len() != 8 || !t.is_ascii() {
                c.check(r == ColorValue::rgb(0, 0, 0), "value-fallback", || format!("{r:?} for a text that is no colour"), || d.clone());
            }
            let back = ColorValue::from_hex(&r.to_hex_alpha());
            c.check(back == r, "value-round", || format!("{r:?} written as {} is read as {back:?}", r.to_hex_alpha()), || d.clone());
            let b6 = ColorValue::from_hex(&r.to_hex());
            c.check(b6 == ColorValue::rgb(r.r, r.g, r.b), "value-round6", || format!("{r:?} written as {} is read as {b6:?}", r.to_hex()), || d.clone());
            c.check(r.to_color() == Color::rgb(r.r, r.g, r.b), "value-to-color", || format!("{:?}", r.to_color()), || d.clone());
        }
        // arithmetic, against real arithmetic with one unit of tolerance
        let (b1, b2) = (c.rng.next(), c.rng.next());
        let p = ColorValue::rgba(b1 as u8, (b1 >> 8) as u8, (b1 >> 16) as u8, (b1 >> 24) as u8);
        let q = ColorValue::rgba(b2 as u8, (b2 >> 8) as u8, (b2 >> 16) as u8, (b2 >> 24) as u8);
        let amt = match c.rng.below(8) { 0 => 0.0, 1 => 1.0, 2 => -3.5, 3 => 7.0, 4 => f32::INFINITY, 5 => 0.5, _ => c.rng.below(1001) as f32 / 1000.0 };
        let t = (amt as f64).clamp(0.0, 1.0);
        let d = format!("{p:?} {q:?} {amt}");
        let near = |x: u8, w: f64| (x as f64 - w).abs() <= 1.001;
        let ch = |v: &ColorValue| [v.r as f64, v.g as f64, v.b as f64, v.a as f64];
        let arith = |c: &mut Ctx, key: &str, got: ColorValue, want: [f64; 4]| {
            let ok = near(got.r, want[0]) && near(got.g, want[1]) && near(got.b, want[2]) && near(got.a, want[3]);
            c.check(ok, key, || format!("{got:?}, expected about {want:?}"), || d.clone());
        };
        let (a, b) = (ch(&p), ch(&q));
        arith(c, "lighter", p.lighter(amt), [a[0] + (255.0 - a[0]) * t, a[1] + (255.0 - a[1]) * t, a[2] + (255.0 - a[2]) * t, a[3]]);
        arith(c, "darker", p.darker(amt), [a[0] * (1.0 - t), a[1] * (1.0 - t), a[2] * (1.0 - t), a[3]]);
        let m = |i: usize| a[i] * (1.0 - t) + b[i] * t;
        arith(c, "mix", p.mix(&q, amt), [m(0), m(1), m(2), m(3)]);
        arith(c, "opacity", p.opacity(amt), [a[0], a[1], a[2], 255.0 * t]);
        let pc = c.rng.below(256) as u8;
        arith(c, "transparent", p.transparent(pc), [a[0], a[1], a[2], 255.0 * (100.0 - pc.min(100) as f64) / 100.0]);
        let g = 0.299 * a[0] + 0.587 * a[1] + 0.114 * a[2];
        arith(c, "grayscale", p.grayscale(), [g, g, g, a[3]]);
        arith(c, "invert", p.invert(), [255.0 - a[0], 255.0 - a[1], 255.0 - a[2], a[3]]);
        let pq = (p.lighter(amt), p.darker(amt));
        c.check(pq.0.a == p.a && pq.1.a == p.a && pq.0.r >= p.r && pq.1.r <= p.r, "exact-alpha", || format!("{pq:?}"), || d.clone());
        c.check(p.invert().invert() == p && p.mix(&q, 0.0) == p && p.mix(&q, 1.0) == q && p.lighter(0.0) == p && p.darker(0.0) == p, "exact-ends", || "an end point is not exact".into(), || d.clone());
    }
    // a colour given to an element is the colour written for it; no colour text stops the writer
    let mut n = 0;
    while c.upto(n, 400) {
        n += 1;
        let mut given = vec![];
        let mut col = |c: &mut Ctx| -> String {
            let v = c.rng.next() as u32 & 0xFFFFFF;
            let s = if c.rng.chance(1, 2) { format!("{v:06X}") } else { format!("#{v:06x}") };
            given.push(format!("{v:06X}"));
            s
        };
        let mut sh = Shape::new(ShapeType::Rectangle, 0, 0, 9, 9).with_fill(ShapeFill::new(&col(c))).with_line(ShapeLine::new(&col(c), 12700));
        if c.rng.chance(1, 2) { sh = sh.with_text("x"); }
        let cell = TableCell::new("t").text_color(&col(c)).background_color(&col(c));
        let cn = Connector::straight(1, 2, 3, 4).with_color(&col(c));
        let sl = SlideContent::new("T").title_color(&col(c)).add_shape(sh).add_connector(cn);
        let s2 = SlideContent::new("U").content_color(&col(c)).add_bullet("b");
        let s3 = SlideContent::new("V").table(TableBuilder::new(vec![100]).add_row(TableRow::new(vec![cell])).build());
        drop(col);
        let d = Deck { title: "c".into(), slides: vec![sl, s2, s3], settings: None };
        let log = format!("{given:?}");
        c.case(&log, true);
        let Some(Ok(b)) = c.guard("write-panics", &log, || crate::p_package::write(&d, false)) else { continue };
        let Ok(p) = Pkg::open(&b) else { continue };
        let mut have = vec![];
        for k in 1..=3 {
            if let Some(x) = p.xml(&format!("ppt/slides/slide{k}.xml")) { have.extend(vals(&x)); }
        }
        for g in &given {
            c.check(have.contains(g), "written", || format!("the colour {g} is not written; written are {have:?}"), || log.clone());
        }
        // any text at all as a fill behind text
        let s = notation(&mut c.rng);
        let d2 = Deck { title: "c".into(), slides: vec![SlideContent::new("T").add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 9, 9).with_fill(ShapeFill::new(&s)).with_text("x"))], settings: None };
        let log = format!("ShapeFill::new({s:?})");
        if let Some(Ok(b)) = c.guard("fill-panics", &log, || crate::p_package::write(&d2, false)) {
            if let (Some(v), Ok(p)) = (meaning(&s, 6), Pkg::open(&b)) {
                // the text on the fill is the lighter or the darker of black and white
                let lum = 0.299 * v[0] as f64 + 0.587 * v[1] as f64 + 0.114 * v[2] as f64;
                if let Some(x) = p.xml("ppt/slides/slide1.xml") {
                    let txt: Vec<String> = x.all("a:rPr").iter().flat_map(|r| vals(r)).collect();
                    let want = if lum < 127.99 { "FFFFFF" } else { "000000" };
                    if (lum - 128.0).abs() > 0.02 {
                        c.check(txt.iter().any(|t| t == want), "contrast", || format!("the text on {s} is {txt:?}, luminance {lum}"), || log.clone());
                    }
                }
            }
        }
    }
}
