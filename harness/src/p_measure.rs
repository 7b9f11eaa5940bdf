//! C12: one length, whatever unit it is given in; elements are written where and as large as they were placed
use crate::ctx::Ctx;
use crate::genr::Deck;
use crate::pkg::{Node, Pkg};
use ppt_rs::core::{Dimension, ElementPlacement, ElementSized, FlexPosition, FlexSize, Positioned};
use ppt_rs::elements::{Position, Size, Transform};
use ppt_rs::generator::*;
use ppt_rs::prelude as pl;

const W: f64 = 9144000.0;
const H: f64 = 6858000.0;
/// the length `v` units of `f` EMU denote, cut to what the type can hold; truncation allows one EMU
fn near(got: f64, v: f64, f: f64, lo: f64, hi: f64) -> bool {
    let w = if v.is_nan() { 0.0 } else { (v * f).clamp(lo, hi) };
    (got - w).abs() <= 1.0 + w.abs() * 1e-12
}
fn value(c: &mut Ctx) -> f64 {
    match c.rng.below(14) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::NAN,
        3 => f64::INFINITY,
        4 => f64::NEG_INFINITY,
        5 => -(c.rng.below(1000) as f64) / 7.0,
        6 => 1e300,
        7 => 1e-12,
        8 => c.rng.below(20000) as f64,
        9 => c.rng.below(1000) as f64 / 100.0,
        _ => c.rng.below(100000) as f64 / 1000.0,
    }
}
fn num(n: &Node, k: &str) -> i64 {
    n.attr(k).and_then(|x| x.parse().ok()).unwrap_or(i64::MIN)
}
type Box4 = (String, i64, i64, i64, i64, String);
/// what stands where on a slide: (element, x, y, cx, cy, rot/flip)
fn boxes(x: &Node) -> Vec<Box4> {
    let mut v = vec![];
    for (tag, sub) in [("p:sp", "a:xfrm"), ("p:pic", "a:xfrm"), ("p:cxnSp", "a:xfrm"), ("p:graphicFrame", "p:xfrm")] {
        for e in x.all(tag) {
            let Some(f) = e.first(sub) else { continue };
            let (Some(o), Some(s)) = (f.kid("a:off"), f.kid("a:ext")) else { continue };
            let mark = f.attrs.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ");
            v.push((tag.to_string(), num(o, "x"), num(o, "y"), num(s, "cx"), num(s, "cy"), mark));
        }
    }
    v
}
pub fn run(c: &mut Ctx) {
    c.rule = "random, extreme and non-finite lengths through every conversion; decks whose elements have random boxes, rotations and flips; non-trivial: a finite, positive length".into();
    let mut n = 0;
    while c.upto(n, 40000) {
        n += 1;
        let (v, w, x, y) = (value(c), value(c), value(c), value(c));
        let reference = match c.rng.below(4) { 0 => 0, 1 => u32::MAX, _ => c.rng.below(10_000_000) as u32 };
        let log = format!("{v:?} {w:?} {x:?} {y:?} of {reference}");
        c.case(&log, v.is_finite() && v > 0.0);
        let u = u32::MAX as f64;
        let Some(r) = c.guard("panics", &log, || {
            let i = |d: Dimension| d.to_emu(reference) as f64;
            let mut e: Vec<(&'static str, f64, f64, f64, f64, f64)> = vec![
                ("Dimension::Inches", i(Dimension::Inches(v)), v, 914400.0, 0.0, u),
                ("Dimension::Cm", i(Dimension::Cm(v)), v, 360000.0, 0.0, u),
                ("Dimension::Pt", i(Dimension::Pt(v)), v, 12700.0, 0.0, u),
                ("Dimension::Ratio", i(Dimension::Ratio(v)), if v.is_nan() { v } else { v.clamp(0.0, 1.0) }, reference as f64, 0.0, u),
                ("Dimension::inches", i(Dimension::inches(v)), v, 914400.0, 0.0, u),
                ("Dimension::cm", i(Dimension::cm(v)), v, 360000.0, 0.0, u),
                ("Dimension::pt", i(Dimension::pt(v)), v, 12700.0, 0.0, u),
                ("Dimension::ratio", i(Dimension::ratio(v)), if v.is_nan() { v } else { v.clamp(0.0, 1.0) }, reference as f64, 0.0, u),
                ("Dimension::percent", i(Dimension::percent(v)), if v.is_nan() { v } else { (v / 100.0).clamp(0.0, 1.0) }, reference as f64, 0.0, u),
                ("Dimension::emu", i(Dimension::emu(reference)), reference as f64, 1.0, 0.0, u),
                ("Dimension::from", i(Dimension::from(reference)), reference as f64, 1.0, 0.0, u),
                ("prelude::inches", pl::inches(v) as f64, v, 914400.0, 0.0, u),
                ("prelude::cm", pl::cm(v) as f64, v, 360000.0, 0.0, u),
                ("prelude::pt", pl::pt(v) as f64, v, 12700.0, 0.0, u),
                ("inches_to_emu", shapes::inches_to_emu(v) as f64, v, 914400.0, 0.0, u),
                ("cm_to_emu", shapes::cm_to_emu(v) as f64, v, 360000.0, 0.0, u),
            ];
            let big = i64::MAX as f64;
            let (p, q, s, t) = (Position::from_inches(v, w), Position::from_cm(v, w), Size::from_inches(v, w), Size::from_cm(v, w));
            let tr = Transform::from_inches(v, w, x, y);
            for (k, g, a, f) in [
                ("Position::from_inches x", p.x, v, 914400.0), ("Position::from_inches y", p.y, w, 914400.0), ("Position::from_cm x", q.x, v, 360000.0), ("Position::from_cm y", q.y, w, 360000.0),
                ("Size::from_inches width", s.width, v, 914400.0), ("Size::from_inches height", s.height, w, 914400.0), ("Size::from_cm width", t.width, v, 360000.0), ("Size::from_cm height", t.height, w, 360000.0),
                ("Transform x", tr.position.x, v, 914400.0), ("Transform y", tr.position.y, w, 914400.0), ("Transform width", tr.size.width, x, 914400.0), ("Transform height", tr.size.height, y, 914400.0),
            ] {
                e.push((k, g as f64, a, f, -big, big));
            }
            e.push(("x_inches", p.x_inches() * 914400.0, p.x as f64, 1.0, -big, big));
            e.push(("y_inches", p.y_inches() * 914400.0, p.y as f64, 1.0, -big, big));
            e.push(("width_inches", s.width_inches() * 914400.0, s.width as f64, 1.0, -big, big));
            e.push(("height_inches", s.height_inches() * 914400.0, s.height as f64, 1.0, -big, big));
            e.push(("with_rotation", tr.with_rotation(v).rotation as f64, v, 60000.0, i32::MIN as f64, i32::MAX as f64));
            e.push(("emu_to_inches", shapes::emu_to_inches(reference) * 914400.0, reference as f64, 1.0, 0.0, u));
            // which axis a share of the slide refers to
            let ra = |z: f64| if z.is_nan() { z } else { z.clamp(0.0, 1.0) };
            let d = |z| Dimension::Ratio(z);
            let fp = FlexPosition::new(d(v), d(w));
            let fs = FlexSize::new(d(v), d(w));
            let (wr, hr) = (reference, 4242u32);
            let sh = Shape::from_dimensions(ShapeType::Rectangle, d(v), d(w), d(x), d(y));
            let sa = Shape::new(ShapeType::Rectangle, 1, 2, 3, 4).at(d(v), d(w)).with_dimensions(d(x), d(y));
            let im = Image::from_bytes(vec![1], 3, 4, "PNG").at(d(v), d(w)).with_dimensions(d(x), d(y));
            let rr = pl::shapes::rect_ratio(v, w, x, y);
            let sd = pl::shapes::dim(ShapeType::Rectangle, d(v), d(w), d(x), d(y));
            for (k, g, a, f) in [
                ("to_emu_x", d(v).to_emu_x(), v, W), ("to_emu_y", d(v).to_emu_y(), v, H),
                ("FlexPosition x", fp.to_emu().0, v, W), ("FlexPosition y", fp.to_emu().1, w, H), ("FlexPosition with x", fp.to_emu_with(wr, hr).0, v, wr as f64), ("FlexPosition with y", fp.to_emu_with(wr, hr).1, w, hr as f64),
                ("FlexSize width", fs.to_emu().0, v, W), ("FlexSize height", fs.to_emu().1, w, H), ("FlexSize with width", fs.to_emu_with(wr, hr).0, v, wr as f64), ("FlexSize with height", fs.to_emu_with(wr, hr).1, w, hr as f64),
                ("Shape x", sh.x, v, W), ("Shape y", sh.y, w, H), ("Shape width", sh.width, x, W), ("Shape height", sh.height, y, H),
                ("Shape.at x", sa.x, v, W), ("Shape.at y", sa.y, w, H), ("Shape.at width", sa.width, x, W), ("Shape.at height", sa.height, y, H),
                ("Image.at x", im.x, v, W), ("Image.at y", im.y, w, H), ("Image.at width", im.width, x, W), ("Image.at height", im.height, y, H),
                ("rect_ratio x", rr.x, v, W), ("rect_ratio y", rr.y, w, H), ("rect_ratio width", rr.width, x, W), ("rect_ratio height", rr.height, y, H),
                ("dim x", sd.x, v, W), ("dim y", sd.y, w, H), ("dim width", sd.width, x, W), ("dim height", sd.height, y, H),
            ] {
                e.push((k, g as f64, ra(a), f, 0.0, u));
            }
            // the shape helpers take inches
            use pl::shapes as ps;
            use ppt_rs::helpers as hp;
            for (k, s, sz) in [
                ("rect", ps::rect(v, w, x, y), (x, y)), ("circle", ps::circle(v, w, x), (x, x)), ("rounded_rect", ps::rounded_rect(v, w, x, y), (x, y)), ("text_box", ps::text_box(v, w, x, y, "t"), (x, y)), ("arrow_right", ps::arrow_right(v, w, x, y), (x, y)),
                ("arrow_left", ps::arrow_left(v, w, x, y), (x, y)), ("arrow_up", ps::arrow_up(v, w, x, y), (x, y)), ("arrow_down", ps::arrow_down(v, w, x, y), (x, y)), ("diamond", ps::diamond(v, w, x), (x, x)), ("triangle", ps::triangle(v, w, x, y), (x, y)),
                ("star", ps::star(v, w, x), (x, x)), ("heart", ps::heart(v, w, x), (x, x)), ("cloud", ps::cloud(v, w, x, y), (x, y)), ("callout", ps::callout(v, w, x, y, "t"), (x, y)), ("badge", ps::badge(v, w, "t", "FF0000"), (1.5, 0.4)), ("process", ps::process(v, w, x, y, "t"), (x, y)),
                ("decision", ps::decision(v, w, x, "t"), (x, x)), ("document", ps::document(v, w, x, y, "t"), (x, y)), ("data", ps::data(v, w, x, y, "t"), (x, y)), ("terminator", ps::terminator(v, w, x, y, "t"), (x, y)),
                ("helpers::rect", hp::rect(v, w, x, y), (x, y)), ("helpers::circle", hp::circle(v, w, x), (x, x)), ("helpers::ellipse", hp::ellipse(v, w, x, y), (x, y)), ("helpers::rounded_rect", hp::rounded_rect(v, w, x, y), (x, y)), ("helpers::triangle", hp::triangle(v, w, x, y), (x, y)), ("helpers::diamond", hp::diamond(v, w, x, y), (x, y)),
            ] {
                for (g, a) in [(s.x, v), (s.y, w), (s.width, sz.0), (s.height, sz.1)] {
                    e.push((k, g as f64, a, 914400.0, 0.0, u));
                }
            }
            e
        }) else { continue };
        for (k, g, a, f, lo, hi) in r {
            c.check(near(g, a, f, lo, hi), &format!("length:{k}"), || format!("{k}: {a} units of {f} EMU became {g}"), || log.clone());
        }
        // whole numbers of units are exact
        let k = c.rng.below(4000) as u32;
        c.check(Dimension::Inches(k as f64).to_emu(0) == k * 914400 && Dimension::Cm(k as f64).to_emu(0) == k * 360000 && Dimension::Pt(k as f64).to_emu(0) == k * 12700 && pl::inches(k as f64) == k * 914400 && pl::cm(k as f64) == k * 360000 && pl::pt(k as f64) == k * 12700, "whole", || "a whole number of units is not exact".into(), || k.to_string());
        c.check(Dimension::Ratio(1.0).to_emu(reference) == reference && Dimension::percent(100.0).to_emu(reference) == reference, "whole-ratio", || "the whole is not the whole".into(), || reference.to_string());
        // placement histories
        let q = |c: &mut Ctx| c.rng.next() as u32;
        let (a, b, d, e) = (q(c), q(c), q(c), q(c));
        let mut p = ElementPlacement::new();
        p.set_position(a, b);
        p.set_size(d, e);
        let p2 = ElementPlacement::image_defaults().with_size(d, e).with_position(a, b);
        c.check((p.x, p.y, p.width, p.height) == (a, b, d, e) && p == p2, "placement", || format!("{p:?} {p2:?}"), || format!("{a} {b} {d} {e}"));
        let mut sh = Shape::new(ShapeType::Heart, 1, 2, 3, 4);
        Positioned::set_position(&mut sh, a, b);
        ElementSized::set_size(&mut sh, d, e);
        let mut im = Image::new("a.png", 1, 1, "PNG");
        Positioned::set_position(&mut im, a, b);
        ElementSized::set_size(&mut im, d, e);
        c.check((sh.x(), sh.y(), ElementSized::width(&sh), ElementSized::height(&sh), im.x(), im.y(), ElementSized::width(&im), ElementSized::height(&im)) == (a, b, d, e, a, b, d, e), "element-box", || format!("{:?} {:?}", (sh.x, sh.y, sh.width, sh.height), (im.x, im.y, im.width, im.height)), || format!("{a} {b} {d} {e}"));
        let ib = ImageBuilder::from_bytes(vec![1], 7, 8, "PNG").position(a, b).size(d, e).build();
        c.check((ib.x, ib.y, ib.width, ib.height) == (a, b, d, e), "image-builder", || format!("{:?}", (ib.x, ib.y, ib.width, ib.height)), || format!("{a} {b} {d} {e}"));
    }
    // written where it was placed
    let mut n = 0;
    while c.upto(n, 700) {
        n += 1;
        let pos = |c: &mut Ctx| match c.rng.below(5) { 0 => 0u32, 1 => u32::MAX, 2 => 914400, _ => c.rng.below(12_000_000) as u32 };
        let mut want: Vec<Box4> = vec![];
        let lay = *c.rng.pick(&[SlideLayout::Blank, SlideLayout::TitleOnly, SlideLayout::TitleAndContent, SlideLayout::CenteredTitle, SlideLayout::TwoColumn, SlideLayout::TitleAndBigContent]);
        let mut s = SlideContent::new("T").layout(lay);
        for _ in 0..c.rng.below(3) {
            let (x, y, w, h) = (pos(c), pos(c), pos(c), pos(c));
            let mut sh = Shape::new(*c.rng.pick(crate::genr::SHAPES), x, y, w, h);
            let mut mark = String::new();
            if c.rng.chance(1, 2) {
                let d = match c.rng.below(5) { 0 => i32::MAX, 1 => -(c.rng.below(90) as i32), 2 => 40000, _ => c.rng.below(360) as i32 };
                sh = sh.with_rotation(d);
                mark = format!("rot~{}", (d as i64).rem_euclid(360));
            }
            if c.rng.chance(1, 2) { sh = sh.with_text("a longer text\nof two lines"); }
            want.push(("p:sp".into(), x as i64, y as i64, w as i64, h as i64, mark));
            s = s.add_shape(sh);
        }
        for _ in 0..c.rng.below(3) {
            let (x, y, w, h) = (pos(c), pos(c), pos(c), pos(c));
            let mut im = Image::from_bytes(crate::genr::png(&mut c.rng), w, h, "PNG").position(x, y);
            if c.rng.chance(1, 3) { im = im.with_crop(0.1, 0.2, 0.3, 0.1) }
            want.push(("p:pic".into(), x as i64, y as i64, w as i64, h as i64, String::new()));
            s = s.add_image(im);
        }
        for _ in 0..c.rng.below(3) {
            let (x, y, w, h) = (pos(c), pos(c), pos(c), pos(c));
            s = s.add_connector(Connector::straight(x, y, w, h));
            let mut m = vec![];
            if w < x { m.push("flipH=1") }
            if h < y { m.push("flipV=1") }
            want.push(("p:cxnSp".into(), x.min(w) as i64, y.min(h) as i64, (x as i64 - w as i64).abs(), (y as i64 - h as i64).abs(), m.join(" ")));
        }
        for _ in 0..c.rng.below(2) {
            let (x, y, w, h) = (pos(c), pos(c), pos(c), pos(c));
            s = s.add_chart(ChartBuilder::new("c", ChartType::Bar).position(x, y).size(w, h).categories(vec!["a"]).add_series(ChartSeries::new("s", vec![1.0])).build());
            want.push(("p:graphicFrame".into(), x as i64, y as i64, w as i64, h as i64, String::new()));
        }
        let mut cols = vec![];
        let mut rows = vec![];
        if lay == SlideLayout::TitleAndContent && c.rng.chance(2, 3) {
            let (x, y) = (pos(c), pos(c));
            cols = (0..c.rng.range(1, 5)).map(|_| c.rng.below(5_000_000) as u32).collect();
            let mut b = TableBuilder::new(cols.clone()).position(x, y);
            for _ in 0..c.rng.range(1, 4) {
                let mut r = TableRow::new(cols.iter().map(|_| TableCell::new("z")).collect());
                let h = if c.rng.chance(1, 2) { let h = c.rng.below(3_000_000) as u32; r = r.with_height(h); h } else { 400000 };
                rows.push(h);
                b = b.add_row(r);
            }
            let t = b.build();
            want.push(("p:graphicFrame".into(), x as i64, y as i64, cols.iter().map(|v| *v as i64).sum(), rows.iter().map(|v| *v as i64).sum(), String::new()));
            s = s.table(t);
        }
        let d = Deck { title: "m".into(), slides: vec![s], settings: None };
        let log = d.desc();
        c.case(&log, want.len() > 1);
        let Some(Ok(b)) = c.guard("write-panics", &log, || crate::p_package::write(&d, c_bool(n))) else { continue };
        let Ok(p) = Pkg::open(&b) else { continue };
        let Some(x) = p.xml("ppt/slides/slide1.xml") else { continue };
        let mut have = boxes(&x);
        for w in &want {
            let same = |h: &Box4| {
                (&h.0, h.1, h.2, h.3, h.4) == (&w.0, w.1, w.2, w.3, w.4)
                    && match w.5.strip_prefix("rot~") {
                        Some(d) => {
                            let r: i64 = h.5.strip_prefix("rot=").and_then(|r| r.parse().ok()).unwrap_or(if h.5.is_empty() { 0 } else { i64::MIN });
                            r % 60000 == 0 && (r / 60000).rem_euclid(360) == d.parse::<i64>().unwrap() && r.abs() <= i32::MAX as i64
                        }
                        None => h.5 == w.5,
                    }
            };
            match have.iter().position(same) {
                Some(i) => {
                    have.remove(i);
                }
                None => c.fail(&format!("written:{}", w.0), format!("no element stands at {w:?}; there are {have:?}"), log.clone()),
            }
        }
        if !cols.is_empty() {
            let g: Vec<i64> = x.all("a:gridCol").iter().map(|n| num(n, "w")).collect();
            let h: Vec<i64> = x.all("a:tr").iter().map(|n| num(n, "h")).collect();
            c.check(g == cols.iter().map(|v| *v as i64).collect::<Vec<_>>() && h == rows.iter().map(|v| *v as i64).collect::<Vec<_>>(), "written:table-grid", || format!("columns {g:?} rows {h:?}, given {cols:?} {rows:?}"), || log.clone());
        }
    }
}
fn c_bool(n: usize) -> bool {
    n % 2 == 0
}
