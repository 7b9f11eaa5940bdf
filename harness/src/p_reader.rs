//! C15: what is read back from a package is what its XML says
use crate::ctx::{Ctx, Rng};
use crate::genr;
use crate::p_package;
use crate::pkg::{Node, Pkg};
use ppt_rs::generator::SlideLayout;
use ppt_rs::opc::Package;
use ppt_rs::oxml::slide::{ParsedSlide, SlideParser};
use ppt_rs::oxml::{PresentationReader, XmlElement, XmlParser};
use std::io::Cursor;

// ---- an independent XML writer: any of the spellings a document may use
fn esc(r: &mut Rng, s: &str, attr: bool) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str(*r.pick(&["&amp;", "&#38;", "&#x26;"])),
            '<' => o.push_str(*r.pick(&["&lt;", "&#60;"])),
            '>' => o.push_str(*r.pick(&["&gt;", "&#62;"])),
            '"' if attr => o.push_str("&quot;"),
            '\'' => o.push_str(*r.pick(&["&apos;", "'"])),
            c if !attr && r.chance(1, 40) => o.push_str(&format!("&#{};", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn text(r: &mut Rng, s: &str) -> String {
    if r.chance(1, 10) && !s.contains("]]>") && !s.is_empty() { return format!("<![CDATA[{s}]]>") }
    if r.chance(1, 10) && s.chars().count() > 1 {
        let k = s.char_indices().nth(1).unwrap().0;
        return format!("{}<!-- {} -->{}", esc(r, &s[..k], false), r.word(), esc(r, &s[k..], false));
    }
    esc(r, s, false)
}
fn at(r: &mut Rng, n: &str, v: &Option<String>) -> String {
    match v { Some(v) => format!(" {n}=\"{}\"", esc(r, v, true)), None => String::new() }
}
fn ws(r: &mut Rng) -> &'static str {
    *r.pick(&["", "", "\n  ", "<!-- x -->", " "])
}
// ---- the model of a slide
#[derive(Clone, Debug, Default)]
struct Run { text: Option<String>, b: Option<String>, i: Option<String>, u: Option<String>, sz: Option<String>, color: Option<Option<String>>, rpr: bool }
#[derive(Clone, Debug, Default)]
struct Para { runs: Vec<Run>, lvl: Option<String>, field: bool }
#[derive(Clone, Debug, Default)]
struct Sp { name: Option<String>, ph: Option<Option<String>>, off: Option<[Option<String>; 4]>, geom: Option<String>, body: Option<Vec<Para>> }
#[derive(Clone, Debug)]
struct Cell { body: Option<Vec<Para>>, rs: Option<String>, gs: Option<String> }
#[derive(Clone, Debug)]
enum Obj { Sp(Sp), Tbl(Vec<Vec<Cell>>), Chart, Pic }
fn flag(r: &mut Rng) -> Option<String> {
    r.pick(&[None, Some("1"), Some("0"), Some("true"), Some("false"), Some("")]).map(|s| s.into())
}
fn number(r: &mut Rng) -> Option<String> {
    match r.below(9) {
        0 | 1 => None,
        2 => Some(String::new()),
        3 => Some(r.pick(&["x", "1.5", "-", "+", " 1", "1 ", "0x1", "١", "99999999999999999999", "9223372036854775808", "-9223372036854775808", "9223372036854775807", "4294967295", "4294967296", "+7", "007", "-0", "--1"]).to_string()),
        4 => Some(format!("-{}", r.below(1 << 40))),
        _ => Some(format!("{}", r.below(1 << 24))),
    }
}
fn mk_run(r: &mut Rng) -> Run {
    let text = match r.below(8) { 0 => None, 1 => Some(String::new()), 2 => Some(" ".repeat(r.range(1, 3))), _ => Some(r.text(12)) };
    let color = match r.below(4) { 0 => Some(Some(genr::color(r))), 1 => Some(None), _ => None };
    let u = r.pick(&[None, Some("none"), Some("sng"), Some("dbl"), Some("")]).map(|s| s.to_string());
    Run { text, b: flag(r), i: flag(r), u, sz: number(r), color, rpr: r.chance(2, 3) }
}
fn para(r: &mut Rng) -> Para {
    Para { runs: (0..r.below(4)).map(|_| mk_run(r)).collect(), lvl: if r.chance(1, 2) { number(r) } else { None }, field: r.chance(1, 8) }
}
fn body(r: &mut Rng) -> Option<Vec<Para>> {
    if r.chance(1, 6) { None } else { Some((0..r.below(4)).map(|_| para(r)).collect()) }
}
fn sp(r: &mut Rng) -> Sp {
    let name = match r.below(8) {
        0 => None,
        1 => Some("Title 1".to_string()),
        2 => Some("SUBTITLE 2".into()),
        3 => Some("Content Placeholder 3".into()),
        4 => Some(format!("{}CONTENT{}", r.text(3), r.text(3))),
        5 => Some("Contents of Titles".into()),
        _ => Some(r.text(8)),
    };
    let ph = match r.below(9) {
        0 => Some(None),
        1 => Some(Some(String::new())),
        k @ 2..=5 => Some(Some(["title", "ctrTitle", "body", "subTitle"][k - 2].to_string())),
        6 => Some(Some(r.pick(&["ftr", "dt", "sldNum", "pic", "obj", "Title", "titles"]).to_string())),
        _ => None,
    };
    let off = if r.chance(1, 4) { None } else { Some([number(r), number(r), number(r), number(r)]) };
    let geom = if r.chance(1, 2) { Some(r.pick(&["rect", "ellipse", "roundRect"]).to_string()) } else { None };
    Sp { name, ph, off, geom, body: body(r) }
}
fn paras_xml(r: &mut Rng, ps: &[Para], tag: &str, a: &str) -> String {
    let mut o = format!("<{tag}><{a}:bodyPr/>{}", ws(r));
    for p in ps {
        o.push_str(&format!("<{a}:p>"));
        if p.lvl.is_some() || r.chance(1, 3) {
            o.push_str(&format!("<{a}:pPr{}>{}</{a}:pPr>", at(r, "lvl", &p.lvl), if r.chance(1, 3) { format!("<{a}:buNone/>") } else { String::new() }));
        }
        for x in &p.runs {
            o.push_str(&format!("<{a}:r>{}", ws(r)));
            if x.rpr {
                o.push_str(&format!("<{a}:rPr lang=\"en-US\"{}{}{}{}>", at(r, "b", &x.b), at(r, "i", &x.i), at(r, "u", &x.u), at(r, "sz", &x.sz)));
                match &x.color {
                    Some(Some(c)) => o.push_str(&format!("<{a}:solidFill><{a}:srgbClr val=\"{c}\"/></{a}:solidFill>")),
                    Some(None) => o.push_str(&format!("<{a}:solidFill><{a}:schemeClr val=\"accent1\"/></{a}:solidFill>")),
                    None => {}
                }
                o.push_str(&format!("</{a}:rPr>"));
            }
            if let Some(t) = &x.text {
                if t.is_empty() && r.chance(1, 2) { o.push_str(&format!("<{a}:t/>")) } else { o.push_str(&format!("<{a}:t>{}</{a}:t>", text(r, t))) }
            }
            o.push_str(&format!("</{a}:r>"));
        }
        if p.field { o.push_str(&format!("<{a}:br/>")) }
        o.push_str(&format!("<{a}:endParaRPr lang=\"en-US\"/></{a}:p>{}", ws(r)));
    }
    o + &format!("</{tag}>")
}
fn slide_xml(r: &mut Rng, objs: &[Obj]) -> String {
    let (p, a) = *r.pick(&[("p", "a"), ("p", "a"), ("x", "dml")]);
    let mut o = format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<{p}:sld xmlns:{p}=\"http://schemas.openxmlformats.org/presentationml/2006/main\" xmlns:{a}=\"http://schemas.openxmlformats.org/drawingml/2006/main\"><{p}:cSld><{p}:spTree><{p}:nvGrpSpPr><{p}:cNvPr id=\"1\" name=\"\"/><{p}:cNvGrpSpPr/><{p}:nvPr/></{p}:nvGrpSpPr><{p}:grpSpPr/>");
    for (k, x) in objs.iter().enumerate() {
        o.push_str(ws(r));
        match x {
            Obj::Sp(s) => {
                o.push_str(&format!("<{p}:sp><{p}:nvSpPr><{p}:cNvPr id=\"{}\"{}/><{p}:cNvSpPr/><{p}:nvPr>", k + 2, at(r, "name", &s.name)));
                if let Some(t) = &s.ph { o.push_str(&format!("<{p}:ph{} idx=\"1\"/>", at(r, "type", t))) }
                o.push_str(&format!("</{p}:nvPr></{p}:nvSpPr><{p}:spPr>"));
                if let Some(v) = &s.off {
                    o.push_str(&format!("<{a}:xfrm><{a}:off{}{}/><{a}:ext{}{}/></{a}:xfrm>", at(r, "x", &v[0]), at(r, "y", &v[1]), at(r, "cx", &v[2]), at(r, "cy", &v[3])));
                }
                if let Some(g) = &s.geom { o.push_str(&format!("<{a}:prstGeom prst=\"{g}\"><{a}:avLst/></{a}:prstGeom>")) }
                o.push_str(&format!("</{p}:spPr>"));
                if let Some(b) = &s.body { o.push_str(&paras_xml(r, b, &format!("{p}:txBody"), a)) }
                o.push_str(&format!("</{p}:sp>"));
            }
            Obj::Tbl(rows) => {
                o.push_str(&format!("<{p}:graphicFrame><{p}:nvGraphicFramePr><{p}:cNvPr id=\"{}\" name=\"Table\"/></{p}:nvGraphicFramePr><{a}:graphic><{a}:graphicData><{a}:tbl><{a}:tblPr/><{a}:tblGrid/>", k + 2));
                for row in rows {
                    o.push_str(&format!("<{a}:tr h=\"1\">"));
                    for c in row {
                        o.push_str(&format!("<{a}:tc{}{}>", at(r, "rowSpan", &c.rs), at(r, "gridSpan", &c.gs)));
                        if let Some(b) = &c.body { o.push_str(&paras_xml(r, b, &format!("{a}:txBody"), a)) }
                        o.push_str(&format!("<{a}:tcPr/></{a}:tc>{}", ws(r)));
                    }
                    o.push_str(&format!("</{a}:tr>"));
                }
                o.push_str(&format!("</{a}:tbl></{a}:graphicData></{a}:graphic></{p}:graphicFrame>"));
            }
            Obj::Chart => o.push_str(&format!("<{p}:graphicFrame><{a}:graphic><{a}:graphicData/></{a}:graphic></{p}:graphicFrame>")),
            Obj::Pic => o.push_str(&format!("<{p}:pic><{p}:nvPicPr><{p}:cNvPr id=\"{}\" name=\"Title picture\"/></{p}:nvPicPr></{p}:pic>", k + 2)),
        }
    }
    o + &format!("</{p}:spTree></{p}:cSld></{p}:sld>\n")
}
// ---- what the model says
fn int(s: &Option<String>, lo: i128, hi: i128) -> Option<i128> {
    let s = s.as_ref()?;
    let (neg, d) = match s.strip_prefix('-') { Some(d) if lo < 0 => (true, d), _ => (false, s.strip_prefix('+').unwrap_or(s)) };
    if d.is_empty() || d.len() > 30 || !d.bytes().all(|b| b.is_ascii_digit()) { return None }
    let v: i128 = d.bytes().fold(0, |a, b| a * 10 + (b - b'0') as i128);
    let v = if neg { -v } else { v };
    (lo <= v && v <= hi).then_some(v)
}
fn yes(o: &Option<String>) -> bool {
    matches!(o.as_deref(), Some("1" | "true"))
}
type RunX = (String, bool, bool, bool, Option<u32>, Option<String>);
type ParaX = (u32, Vec<RunX>);
fn paras_of(b: &Option<Vec<Para>>) -> Vec<ParaX> {
    let mut v = vec![];
    for p in b.iter().flatten() {
        let runs: Vec<RunX> = p.runs.iter().filter(|x| x.text.as_deref().is_some_and(|t| !t.is_empty())).map(|x| {
            let t = x.text.clone().unwrap();
            if !x.rpr { return (t, false, false, false, None, None) }
            (t, yes(&x.b), yes(&x.i), x.u.as_deref().is_some_and(|u| u != "none"), int(&x.sz, 0, u32::MAX as i128).map(|v| v as u32), x.color.clone().flatten())
        }).collect();
        if !runs.is_empty() { v.push((int(&p.lvl, 0, u32::MAX as i128).unwrap_or(0) as u32, runs)) }
    }
    v
}
fn ptext(p: &ParaX) -> String {
    p.1.iter().map(|r| r.0.as_str()).collect()
}
fn btext(b: &[ParaX]) -> String {
    b.iter().map(ptext).collect::<Vec<_>>().join("\n")
}
#[derive(Clone, Debug, PartialEq, Default)]
struct SlideX {
    shapes: Vec<(String, Option<String>, Vec<ParaX>, [i64; 4], bool, bool)>,
    tables: Vec<Vec<Vec<(String, u32, u32)>>>,
    title: Option<String>,
    body: Vec<String>,
}
fn named(s: &Sp, n: &str) -> bool {
    s.name.as_ref().is_some_and(|m| m.to_lowercase().contains(n))
}
fn expect(objs: &[Obj]) -> SlideX {
    let mut x = SlideX::default();
    for o in objs {
        match o {
            Obj::Sp(s) => {
                let t = match &s.ph { Some(Some(t)) => t == "title" || t == "ctrTitle", _ => named(s, "title") };
                let b = !t && match &s.ph { Some(Some(t)) => t == "body" || t.is_empty(), Some(None) => true, None => named(s, "content") };
                let ps = paras_of(&s.body);
                if t { x.title = Some(btext(&ps)) }
                if b { x.body.extend(ps.iter().map(ptext)) }
                let n = |k: usize| s.off.as_ref().and_then(|v| int(&v[k], i64::MIN as i128, i64::MAX as i128)).unwrap_or(0) as i64;
                x.shapes.push((s.name.clone().unwrap_or("Shape".into()), s.geom.clone(), ps, [n(0), n(1), n(2), n(3)], t, b));
            }
            Obj::Tbl(rows) => {
                let u = |s: &Option<String>| int(s, 0, u32::MAX as i128).unwrap_or(1) as u32;
                let t: Vec<Vec<_>> = rows.iter().filter(|r| !r.is_empty()).map(|r| r.iter().map(|c| (btext(&paras_of(&c.body)), u(&c.rs), u(&c.gs))).collect()).collect();
                if !t.is_empty() { x.tables.push(t) }
            }
            _ => {}
        }
    }
    x
}
fn of(s: &ParsedSlide) -> SlideX {
    let paras = |v: &Vec<ppt_rs::oxml::slide::Paragraph>| v.iter().map(|p| (p.level, p.runs.iter().map(|r| (r.text.clone(), r.bold, r.italic, r.underline, r.font_size, r.color.clone())).collect())).collect();
    SlideX {
        shapes: s.shapes.iter().map(|h| (h.name.clone(), h.shape_type.clone(), paras(&h.paragraphs), [h.x, h.y, h.width, h.height], h.is_title, h.is_body)).collect(),
        tables: s.tables.iter().map(|t| t.rows.iter().map(|r| r.iter().map(|c| (c.text.clone(), c.row_span, c.col_span)).collect()).collect()).collect(),
        title: s.title.clone(),
        body: s.body_text.clone(),
    }
}
fn differs(a: &SlideX, b: &SlideX) -> Option<(&'static str, String)> {
    if a.shapes.len() != b.shapes.len() { return Some(("shape-count", format!("{} shapes, expected {}", a.shapes.len(), b.shapes.len()))) }
    for (x, y) in a.shapes.iter().zip(&b.shapes) {
        if x.0 != y.0 { return Some(("name", format!("{:?} expected {:?}", x.0, y.0))) }
        if x.1 != y.1 { return Some(("geometry", format!("{:?} expected {:?}", x.1, y.1))) }
        if x.3 != y.3 { return Some(("place", format!("{:?} expected {:?}", x.3, y.3))) }
        if x.4 != y.4 || x.5 != y.5 { return Some(("role", format!("title {} body {} expected title {} body {} for {:?}", x.4, x.5, y.4, y.5, y.0))) }
        if x.2 != y.2 { return Some(("text", format!("{:?} expected {:?}", x.2, y.2))) }
    }
    if a.tables != b.tables { return Some(("table", format!("{:?} expected {:?}", a.tables, b.tables))) }
    if a.title != b.title { return Some(("title", format!("{:?} expected {:?}", a.title, b.title))) }
    if a.body != b.body { return Some(("body", format!("{:?} expected {:?}", a.body, b.body))) }
    None
}
fn all_text(x: &SlideX) -> Vec<String> {
    let mut v: Vec<String> = x.title.iter().cloned().collect();
    v.extend(x.body.iter().cloned());
    v.extend(x.shapes.iter().map(|s| btext(&s.2)).filter(|t| !t.is_empty()));
    v
}
// the element tree against an independent parser's
fn same_tree(e: &XmlElement, n: &Node) -> Result<(), String> {
    let mut a: Vec<(String, String)> = e.attributes.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let mut b = n.attrs.clone();
    a.sort();
    b.sort();
    let local = n.name.rsplit(':').next().unwrap();
    if e.tag != n.name || e.local_name != local { return Err(format!("element {} ({}) expected {}", e.tag, e.local_name, n.name)) }
    if a != b { return Err(format!("attributes of {}: {a:?} expected {b:?}", n.name)) }
    if e.text != n.text { return Err(format!("text of {}: {:?} expected {:?}", n.name, e.text, n.text)) }
    if e.children.len() != n.kids.len() { return Err(format!("children of {}: {} expected {}", n.name, e.children.len(), n.kids.len())) }
    e.children.iter().zip(&n.kids).try_for_each(|(x, y)| same_tree(x, y))
}
fn deep<'a>(e: &'a XmlElement, l: &str, out: &mut Vec<&'a XmlElement>) {
    for k in &e.children {
        if k.local_name == l { out.push(k) }
        deep(k, l, out);
    }
}
fn ptr(o: Option<&XmlElement>) -> usize {
    o.map_or(0, |e| e as *const XmlElement as usize)
}
fn tree(c: &mut Ctx, xml: &str) {
    let n = crate::pkg::parse_xml(xml.as_bytes());
    let Some(e) = c.guard("parse-panics", xml, || XmlParser::parse_str(xml)) else { return };
    match (&e, &n) {
        (Ok(e), Ok(n)) => {
            if let Err(w) = same_tree(e, n) { c.fail("tree", w, xml) }
            let full = n.deep_text();
            // text of an element: its own, then that of its children in order
            fn tc(n: &Node) -> String { n.kids.iter().fold(n.text.clone(), |a, k| a + &tc(k)) }
            c.check(e.text_content() == tc(n), "text-content", || format!("{:?} expected {:?} ({full:?})", e.text_content(), tc(n)), || xml.into());
            let mut v = vec![];
            deep_all(e, &mut v);
            let names: Vec<String> = v.iter().map(|x| x.local_name.clone()).collect();
            for _ in 0..4 {
                let l = if names.is_empty() || c.rng.chance(1, 8) { "nosuch".to_string() } else { c.rng.pick(&names).clone() };
                let at: &XmlElement = if v.is_empty() { e } else { v[c.rng.below(v.len())] };
                for root in [e, at] {
                    let kids: Vec<&XmlElement> = root.children.iter().filter(|k| k.local_name == l).collect();
                    let mut d = vec![];
                    deep(root, &l, &mut d);
                    let p = |v: &[&XmlElement]| v.iter().map(|e| ptr(Some(e))).collect::<Vec<_>>();
                    c.check(ptr(root.find(&l)) == ptr(kids.first().copied()), "find", || format!("find({l:?})"), || xml.into());
                    c.check(p(&root.find_all(&l)) == p(&kids), "find-all", || format!("find_all({l:?})"), || xml.into());
                    c.check(ptr(root.find_descendant(&l)) == ptr(d.first().copied()), "find-descendant", || format!("find_descendant({l:?}) of {}", root.tag), || xml.into());
                    c.check(p(&root.find_all_descendants(&l)) == p(&d), "find-all-descendants", || format!("find_all_descendants({l:?}) of {}", root.tag), || xml.into());
                }
            }
        }
        (Ok(_), Err(w)) => c.fail("accepts-ill-formed", format!("parsed a text that is not well-formed: {w}"), xml),
        (Err(w), Ok(_)) => c.fail("refuses-well-formed", format!("{w}"), xml),
        _ => {}
    }
}
fn deep_all<'a>(e: &'a XmlElement, out: &mut Vec<&'a XmlElement>) {
    for k in &e.children {
        out.push(k);
        deep_all(k, out);
    }
}
fn node_slide(root: &Node) -> SlideX {
    // the slide as an independent reader of the written XML sees it
    fn below<'a>(n: &'a Node, l: &str) -> Option<&'a Node> { n.all_local(l).into_iter().next() }
    fn paras(b: Option<&Node>) -> Option<Vec<Para>> {
        Some(b?.locals("p").iter().map(|p| Para {
            lvl: p.local("pPr").and_then(|x| x.attr("lvl")).map(|s| s.into()),
            runs: p.locals("r").iter().map(|r| {
                let pr = r.local("rPr");
                let g = |k: &str| pr.and_then(|x| x.attr(k)).map(|s| s.to_string());
                Run { text: r.local("t").map(|t| t.deep_text()), b: g("b"), i: g("i"), u: g("u"), sz: g("sz"), color: pr.and_then(|x| below(x, "solidFill")).map(|f| f.local("srgbClr").and_then(|c| c.attr("val")).map(|s| s.to_string())), rpr: pr.is_some() }
            }).collect(),
            field: false,
        }).collect())
    }
    let mut objs = vec![];
    if let Some(t) = below(root, "spTree") {
        for s in t.locals("sp") {
            let xf = below(s, "xfrm");
            let g = |e: &str, k: &str| xf.and_then(|x| x.local(e)).and_then(|x| x.attr(k)).map(|s| s.to_string());
            objs.push(Obj::Sp(Sp {
                name: below(s, "cNvPr").and_then(|x| x.attr("name")).map(|s| s.into()),
                ph: below(s, "nvPr").and_then(|x| x.local("ph")).map(|x| x.attr("type").map(|s| s.into())),
                off: xf.map(|_| [g("off", "x"), g("off", "y"), g("ext", "cx"), g("ext", "cy")]),
                geom: below(s, "prstGeom").and_then(|x| x.attr("prst")).map(|s| s.into()),
                body: paras(below(s, "txBody")),
            }));
        }
        for f in t.locals("graphicFrame") {
            if let Some(tb) = below(f, "tbl") {
                objs.push(Obj::Tbl(tb.locals("tr").iter().map(|r| r.locals("tc").iter().map(|c| Cell { body: paras(c.local("txBody")), rs: c.attr("rowSpan").map(|s| s.into()), gs: c.attr("gridSpan").map(|s| s.into()) }).collect()).collect()));
            }
        }
    }
    expect(&objs)
}
/// the library's reading of a package against an independent one
pub fn check_read(c: &mut Ctx, bytes: &[u8], key: &str, desc: &str) -> Option<PresentationReader> {
    let f = std::env::temp_dir().join("r.pptx");
    std::fs::write(&f, bytes).unwrap();
    let r = c.guard("open-panics", desc, || PresentationReader::open(f.to_str().unwrap()).map_err(|e| e.to_string()));
    let _ = std::fs::remove_file(&f);
    let r = match r? {
        Ok(r) => r,
        Err(e) => {
            c.fail(&format!("{key}-open"), e, desc);
            return None;
        }
    };
    let p = Pkg::open(bytes).ok()?;
    let slides = p.slides();
    c.check(r.slide_count() == slides.len() && r.info().slide_count == slides.len(), &format!("{key}-count"), || format!("{} slides, expected {}", r.slide_count(), slides.len()), || desc.into());
    let all = c.guard("read-panics", desc, || r.get_all_slides().map_err(|e| e.to_string()))?;
    let mut texts = vec![];
    match all {
        Ok(all) => {
            for (k, s) in all.iter().enumerate().take(slides.len()) {
                let Some(n) = p.xml(&slides[k]) else { continue };
                let w = node_slide(&n);
                if let Some((x, m)) = differs(&of(s), &w) { c.fail(&format!("{key}-slide-{x}"), format!("slide {}: {m}", k + 1), desc) }
                texts.extend(all_text(&w));
            }
            let t = r.extract_all_text().unwrap_or_default();
            c.check(t == texts, &format!("{key}-all-text"), || format!("{t:?} expected {texts:?}"), || desc.into());
        }
        Err(e) => c.fail(&format!("{key}-read"), e, desc),
    }
    c.check(r.get_slide(slides.len()).is_err() && r.get_slide(usize::MAX).is_err(), &format!("{key}-beyond"), || "a slide beyond the last".into(), || desc.into());
    let core = p.xml("docProps/core.xml");
    let g = |l: &str| core.as_ref().and_then(|n| n.all_local(l).into_iter().next()).map(|n| n.deep_text()).filter(|s| !s.is_empty());
    let i = r.info();
    for (n, a, b) in [("title", &i.title, g("title")), ("creator", &i.creator, g("creator")), ("lastModifiedBy", &i.last_modified_by, g("lastModifiedBy")), ("created", &i.created, g("created")), ("modified", &i.modified, g("modified"))] {
        c.check(*a == b, &format!("{key}-info"), || format!("{n}: {a:?} expected {b:?}"), || desc.into());
    }
    let rv = g("revision").and_then(|s| s.parse().ok());
    c.check(i.revision == rv, &format!("{key}-info"), || format!("revision {:?} expected {rv:?}", i.revision), || desc.into());
    Some(r)
}
fn save(p: &Package) -> Vec<u8> {
    let mut v = Cursor::new(vec![]);
    p.save_writer(&mut v).unwrap();
    v.into_inner()
}
pub fn run(c: &mut Ctx) {
    c.rule = "slide XML built from a model in random spellings (references, CDATA, comments, prefixes, absent and odd attributes) read by SlideParser and XmlParser and compared with the model and an independent parser; random decks and packages with shuffled slide lists read by PresentationReader; non-trivial: at least one text".into();
    let mut n = 0;
    while c.upto(n, 2500) {
        n += 1;
        let objs: Vec<Obj> = (0..c.rng.below(5)).map(|_| {
            let r = &mut c.rng;
            match r.below(8) {
                0 => Obj::Chart,
                1 => Obj::Pic,
                2 | 3 => Obj::Tbl((0..r.below(4)).map(|_| (0..r.below(4)).map(|_| Cell { body: body(r), rs: number(r), gs: number(r) }).collect()).collect()),
                _ => Obj::Sp(sp(r)),
            }
        }).collect();
        let xml = slide_xml(&mut c.rng, &objs);
        let w = expect(&objs);
        c.case(&xml, !all_text(&w).is_empty() || !w.tables.is_empty());
        match c.guard("slide-panics", &xml, || SlideParser::parse(&xml).map_err(|e| e.to_string())) {
            Some(Ok(s)) => {
                if let Some((x, m)) = differs(&of(&s), &w) { c.fail(&format!("slide-{x}"), m, &xml) }
                let (a, b) = (s.all_text(), all_text(&w));
                c.check(a == b, "all-text", || format!("{a:?} expected {b:?}"), || xml.clone());
                for (t, m) in s.tables.iter().zip(&w.tables) {
                    c.check(t.row_count() == m.len() && t.col_count() == m[0].len(), "table-size", || format!("{}x{} expected {}x{}", t.row_count(), t.col_count(), m.len(), m[0].len()), || xml.clone());
                }
                for (h, m) in s.shapes.iter().zip(&w.shapes) {
                    c.check(h.text() == btext(&m.2), "shape-text", || format!("{:?} expected {:?}", h.text(), btext(&m.2)), || xml.clone());
                }
            }
            Some(Err(e)) => c.fail("slide-refused", e, &xml),
            None => {}
        }
        tree(c, &xml);
        if n % 3 == 0 {
            // damaged
            let mut b: Vec<char> = xml.chars().collect();
            for _ in 0..c.rng.range(1, 3) {
                let k = c.rng.below(b.len());
                if c.rng.chance(1, 2) { b.remove(k); } else { b[k] = *c.rng.pick(&['<', '>', '&', '"', '/', 'a', ' ', ':']) }
            }
            let x: String = b.into_iter().collect();
            tree(c, &x);
            c.guard("slide-panics", &x, || SlideParser::parse(&x).is_ok());
        }
    }
    let mut n = 0;
    while c.upto(n, 120) {
        n += 1;
        let d = genr::deck(&mut c.rng);
        let desc = d.desc();
        let Ok(Ok(b)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p_package::write(&d, false))) else { continue };
        c.case(&desc, true);
        if let Some(r) = check_read(c, &b, "deck", &desc) {
            // what was given to the writer comes back
            c.check(r.slide_count() == d.slides.len(), "written-count", || format!("{} slides read, {} written", r.slide_count(), d.slides.len()), || desc.clone());
            c.check(r.info().title.clone().unwrap_or_default() == d.title, "written-doc-title", || format!("{:?} expected {:?}", r.info().title, d.title), || desc.clone());
            for (k, s) in d.slides.iter().enumerate() {
                let Ok(x) = r.get_slide(k) else { continue };
                let t = all_text(&of(&x));
                if s.layout != SlideLayout::Blank {
                    c.check(s.title.is_empty() || t.iter().any(|y| *y == s.title), "written-title", || format!("slide {}: title {:?} not among {t:?}", k + 1, s.title), || desc.clone());
                }
                if s.layout == SlideLayout::TitleAndContent {
                    if let Some(tb) = &s.table {
                        let got: Vec<Vec<String>> = x.tables.first().map(|t| t.rows.iter().map(|r| r.iter().map(|c| c.text.clone()).collect()).collect()).unwrap_or_default();
                        let want: Vec<Vec<String>> = tb.rows.iter().map(|r| r.cells.iter().map(|c| if c.h_merge || c.v_merge { String::new() } else { c.text.clone() }).collect()).collect();
                        c.check(got == want || tb.rows.is_empty(), "written-table", || format!("slide {}: {got:?} expected {want:?}", k + 1), || desc.clone());
                    }
                }
            }
        }
        // the same parts, listed in another order
        if let Ok(mut p) = Package::open_reader(Cursor::new(b.clone())) {
            let xml = p.get_part_string("ppt/presentation.xml").unwrap_or_default();
            let ids: Vec<&str> = xml.split("<p:sldId ").skip(1).filter_map(|s| s.split("/>").next()).collect();
            if ids.len() > 1 {
                let mut o: Vec<&str> = ids.clone();
                for i in (1..o.len()).rev() {
                    let j = c.rng.below(i + 1);
                    o.swap(i, j);
                }
                let mut y = xml.clone();
                for (k, i) in ids.iter().enumerate() { y = y.replacen(&format!("<p:sldId {i}/>"), &format!("<@{k}@>"), 1) }
                for (k, i) in o.iter().enumerate() { y = y.replace(&format!("<@{k}@>"), &format!("<p:sldId {i}/>")) }
                p.add_part("ppt/presentation.xml".into(), y.into_bytes());
                if c.rng.chance(1, 2) {
                    // absolute targets and ids of another kind
                    let rels = p.get_part_string("ppt/_rels/presentation.xml.rels").unwrap_or_default().replace("Target=\"slides/", "Target=\"/ppt/slides/");
                    p.add_part("ppt/_rels/presentation.xml.rels".into(), rels.into_bytes());
                }
                check_read(c, &save(&p), "reordered", &format!("slide list {o:?}: {desc}"));
            }
        }
    }
    // no relationships: the slide parts by number
    for n in [1usize, 2, 9, 10, 11, 25] {
        let mut p = Package::new();
        for k in 1..=n {
            p.add_part(format!("ppt/slides/slide{k}.xml"), format!("<p:sld xmlns:p=\"p\" xmlns:a=\"a\"><p:cSld><p:spTree><p:sp><p:nvSpPr><p:cNvPr name=\"Title\"/></p:nvSpPr><p:txBody><a:p><a:r><a:t>{k}</a:t></a:r></a:p></p:txBody></p:sp></p:spTree></p:cSld></p:sld>").into_bytes());
            p.add_part(format!("ppt/slides/_rels/slide{k}.xml.rels"), b"<Relationships/>".to_vec());
        }
        let f = std::env::temp_dir().join("r.pptx");
        std::fs::write(&f, save(&p)).unwrap();
        if let Some(Ok(r)) = c.guard("open-panics", "no relationships", || PresentationReader::open(f.to_str().unwrap())) {
            let t: Vec<String> = (0..r.slide_count()).map(|k| r.get_slide(k).ok().and_then(|s| s.title).unwrap_or_default()).collect();
            let w: Vec<String> = (1..=n).map(|k| k.to_string()).collect();
            c.check(t == w, "unlisted", || format!("{t:?} expected {w:?}"), || format!("{n} slide parts without relationships"));
        }
        let _ = std::fs::remove_file(&f);
    }
}
