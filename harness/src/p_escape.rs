//! C01: escaping, against an independent unescaper and an independent XML parser
use crate::ctx::Ctx;
use crate::pkg::parse_xml;
use ppt_rs::core::{append_escape_xml, XmlWriter};
use ppt_rs::generator::hyperlinks::*;
use ppt_rs::generator::props_xml::*;
use ppt_rs::generator::*;
use ppt_rs::parts::*;

/// replaces the five entities; None when markup characters or other references are left
pub fn unescape(s: &str) -> Option<String> {
    let mut o = String::new();
    let mut rest = s;
    while let Some(c) = rest.chars().next() {
        match c {
            '<' | '>' | '"' | '\'' => return None,
            '&' => {
                let (e, x) = [("&amp;", '&'), ("&lt;", '<'), ("&gt;", '>'), ("&quot;", '"'), ("&apos;", '\'')].into_iter().find(|p| rest.starts_with(p.0))?;
                o.push(x);
                rest = &rest[e.len()..];
            }
            c => {
                o.push(c);
                rest = &rest[c.len_utf8()..];
            }
        }
    }
    Some(o)
}
const NS: &str = r#"xmlns:a="a" xmlns:p="p" xmlns:r="r" xmlns:p14="p14" xmlns:c="c" xmlns:dc="dc" xmlns:cp="cp" xmlns:dcterms="dcterms" xmlns:xsi="xsi""#;
fn strings(xml: &str) -> Result<Vec<String>, String> {
    let body = xml.trim_start();
    let body = if body.starts_with("<?xml") { body[body.find("?>").unwrap_or(0) + 2..].to_string() } else { body.to_string() };
    let n = parse_xml(format!("<root {NS}>{body}</root>").as_bytes())?;
    let mut v = vec![];
    n.walk(&mut |n| {
        v.extend(n.attrs.iter().map(|a| a.1.clone()));
        v.push(n.text.clone());
    });
    Ok(v)
}
type Chan = (&'static str, fn(&str) -> String);
fn tag_attrs(attrs: String) -> String {
    format!("<x {attrs}/>")
}
/// every place of the public API where caller text goes into markup through an escaper
pub const CHANNELS: &[Chan] = &[
    ("comment-author-name", |t| CommentAuthor::new(0, t, "x").to_xml()),
    ("comment-author-initials", |t| CommentAuthor::new(0, "x", t).to_xml()),
    ("comment-author-list", |t| { let mut l = CommentAuthorList::new(); l.get_or_add("first", "f"); l.get_or_add(t, "x"); l.to_xml() }),
    ("comment-text", |t| Comment::new(0, t).to_xml()),
    ("comment-date", |t| Comment::new(0, "x").date(t).to_xml()),
    ("slide-comments", |t| { let mut l = SlideComments::new(); l.add_comment(0, t, 1, 2); l.to_xml() }),
    ("section-name", |t| { let mut m = SectionManager::new(); let _ = m.add_section(t, 0, 2); m.to_xml(4) }),
    ("section-rename", |t| { let mut m = SectionManager::new(); let _ = m.add_section("zz", 0, 2); m.rename_section("zz", t); m.to_xml(4) }),
    ("font-typeface", |t| { let mut l = EmbeddedFontList::new(); l.add(EmbeddedFont::new(t, FontStyle::Bold, vec![1], "rId9")); l.to_xml() }),
    ("font-rel-id", |t| { let mut l = EmbeddedFontList::new(); l.add(EmbeddedFont::new("x", FontStyle::Bold, vec![1], t)); l.to_xml() }),
    ("font-panose", |t| { let mut l = EmbeddedFontList::new(); l.add(EmbeddedFont::new("x", FontStyle::Bold, vec![1], "rId9").panose(t)); l.to_xml() }),
    ("signer-name", |t| DigitalSignature::new(SignerInfo::new(t)).to_signature_xml()),
    ("sign-comments", |t| DigitalSignature::new(SignerInfo::new("x")).comments(t).to_signature_xml()),
    ("sign-date", |t| DigitalSignature::new(SignerInfo::new("x")).sign_date(t).to_signature_xml()),
    ("handout-header", |t| PrintSettings::new().header(t).to_handout_master_xml()),
    ("handout-footer", |t| PrintSettings::new().footer(t).to_handout_master_xml()),
    ("core-title", |t| create_core_props_xml(t)),
    ("app-titles", |t| create_app_props_xml(2, 0, &["first".to_string(), t.to_string()])),
    ("coreprops-title", |t| { let mut p = CorePropertiesPart::new(); p.set_title(t); p.to_xml().unwrap_or_default() }),
    ("coreprops-subject", |t| { let mut p = CorePropertiesPart::new(); p.set_subject(t); p.to_xml().unwrap_or_default() }),
    ("coreprops-creator", |t| { let mut p = CorePropertiesPart::new(); p.set_creator(t); p.to_xml().unwrap_or_default() }),
    ("coreprops-keywords", |t| { let mut p = CorePropertiesPart::new(); p.set_keywords(t); p.to_xml().unwrap_or_default() }),
    ("coreprops-description", |t| { let mut p = CorePropertiesPart::new(); p.set_description(t); p.to_xml().unwrap_or_default() }),
    ("appprops-application", |t| { let mut p = AppPropertiesPart::new(); p.set_application(t); p.to_xml().unwrap_or_default() }),
    ("appprops-company", |t| { let mut p = AppPropertiesPart::new(); p.set_company(t); p.to_xml().unwrap_or_default() }),
    ("appprops-format", |t| { let mut p = AppPropertiesPart::new(); p.set_presentation_format(t); p.to_xml().unwrap_or_default() }),
    ("ctypes-default", |t| { let mut p = ContentTypesPart::new(); p.add_default("zzz", t); p.to_xml().unwrap_or_default() }),
    ("ctypes-override", |t| { let mut p = ContentTypesPart::new(); p.add_override(t, "a/b"); p.to_xml().unwrap_or_default() }),
    ("rel-target", |t| Relationship::new("rId1", RelationshipType::Slide, t).to_xml()),
    ("rel-id", |t| Relationship::new(t, RelationshipType::Slide, "x").to_xml()),
    ("rels-target", |t| { let mut r = Relationships::new(); r.add(RelationshipType::Image, t); r.to_xml() }),
    ("theme-name", |t| { let mut p = ThemePart::new(1); p.set_name(t); p.to_xml().unwrap_or_default() }),
    ("theme-major", |t| { let mut p = ThemePart::new(1); p.set_major_font(t); p.to_xml().unwrap_or_default() }),
    ("theme-minor", |t| { let mut p = ThemePart::new(1); p.set_minor_font(t); p.to_xml().unwrap_or_default() }),
    ("gen-theme-name", |t| PresentationTheme::new(t).to_theme_xml()),
    ("gen-theme-major", |t| PresentationTheme::new("x").major_font(t).to_theme_xml()),
    ("gen-theme-minor", |t| PresentationTheme::new("x").minor_font(t).to_theme_xml()),
    ("notes-part", |t| NotesSlidePart::with_text(1, t).to_xml().unwrap_or_default()),
    ("notes", |t| create_notes_xml(1, t)),
    ("run-text", |t| Run::new(t).to_xml()),
    ("run-font", |t| Run::new("x").font(t).to_xml()),
    ("rtl-lang", |t| tag_attrs(RtlTextProps::new().language(t).to_rpr_xml_attrs())),
    ("rtl-font", |t| RtlTextProps::new().complex_script_font(t).to_cs_font_xml()),
    ("link-tooltip", |t| generate_text_hyperlink_xml(&Hyperlink::url("u").with_tooltip(t), "rId1")),
    ("link-rid", |t| generate_text_hyperlink_xml(&Hyperlink::url("u"), t)),
    ("shape-link-tooltip", |t| generate_shape_hyperlink_xml(&Hyperlink::url("u").with_tooltip(t), "rId1")),
    ("shape-link-rid", |t| generate_shape_hyperlink_xml(&Hyperlink::url("u"), t)),
    ("link-rel-url", |t| generate_hyperlink_relationship_xml(&Hyperlink::url(t), "rId1")),
    ("link-rel-id", |t| generate_hyperlink_relationship_xml(&Hyperlink::url("u"), t)),
    ("connector-label", |t| connectors::generate_connector_xml(&Connector::straight(0, 0, 5, 5).with_label(t), 7)),
    ("shape-text", |t| generate_shape_xml(&Shape::new(ShapeType::Rectangle, 1, 2, 3, 4).with_text(t), 7)),
    ("table-part-text", |t| TableCellPart::new(t).to_xml()),
    ("table-part-font", |t| TableCellPart::new("x").font(t).to_xml()),
    ("xmlwriter-text", |t| { let mut w = XmlWriter::new(); w.start_element("q", &[]).text(t).end_element("q"); w.finish() }),
    ("xmlwriter-attr", |t| { let mut w = XmlWriter::new(); w.start_element("q", &[("k", "1"), ("t", t)]).end_element("q"); w.finish() }),
    ("xmlwriter-empty-attr", |t| { let mut w = XmlWriter::new(); w.empty_element("q", &[("k", "1"), ("t", t)]); w.finish() }),
    ("xmlwriter-declared", |t| { let mut w = XmlWriter::with_capacity(9); w.xml_declaration().start_element("q", &[]).text(t).end_element("q"); w.as_str().to_string() }),
];
fn lawful(t: &str) -> bool {
    // characters XML 1.0 can hold, minus white space that a parser normalises
    t.chars().all(|c| c == ' ' || c as u32 > 0x20 && c != '\u{7f}' && c != '\u{fffe}' && c != '\u{ffff}') && t.trim() == t
}
pub fn text(c: &mut Ctx) -> String {
    match c.rng.below(10) {
        0 => String::new(),
        1 => c.rng.pick(&["&", "<", ">", "\"", "'", "&amp;", "&amp;amp;", "]]>", "é&", "中<中", "😀'😀", "a&b;c", "&#x26;"]).to_string(),
        2 => { // a single special character somewhere in a long plain text
            let n = c.rng.range(1, 60);
            let k = c.rng.below(n);
            let sp = *c.rng.pick(&['&', '<', '>', '"', '\'']);
            (0..n).map(|i| if i == k { sp } else { *c.rng.pick(&['a', 'é', '中', '7', '_']) }).collect()
        }
        3 => (0..c.rng.range(1, 20)).map(|_| char::from_u32(c.rng.below(0x3000) as u32).unwrap_or('x')).collect(),
        _ => c.rng.text(24),
    }
}
pub fn run(c: &mut Ctx) {
    c.rule = "random and special-character texts: escape, append to a random buffer, and every public channel that puts caller text into markup, read back by an independent parser; non-trivial: text with at least one of & < > \" '".into();
    let mut n = 0;
    while c.upto(n, 30000) {
        n += 1;
        let t = text(c);
        c.case(&t, t.contains(['&', '<', '>', '"', '\'']));
        if let Some(e) = c.guard("escape-panics", &format!("escape_xml({t:?})"), || ppt_rs::escape_xml(&t)) {
            c.check(unescape(&e).as_deref() == Some(&t), "escape-lossy", || format!("escape_xml gives {e:?}, which reads back as {:?}", unescape(&e)), || format!("escape_xml({t:?})"));
        }
        let pre = c.rng.text(6);
        let mut b = pre.clone();
        if c.guard("append-escape-panics", &format!("append_escape_xml({pre:?}, {t:?})"), || append_escape_xml(&mut b, &t)).is_some() {
            let e = b.strip_prefix(&pre[..]).and_then(unescape);
            c.check(e.as_deref() == Some(&t), "append-escape-lossy", || format!("buffer is {b:?}"), || format!("append_escape_xml({pre:?}, {t:?})"));
        }
    }
    let mut n = 0;
    while c.upto(n, 400) {
        n += 1;
        let mut t = text(c);
        if !lawful(&t) || t.is_empty() {
            t = t.chars().map(|x| if lawful(&x.to_string()) { x } else { '&' }).collect::<String>() + "<";
        }
        if t.contains("{") { continue } // signer texts may be templates
        c.case(&t, t.contains(['&', '<', '>', '"', '\'']));
        for (name, f) in CHANNELS {
            let input = format!("{name}({t:?})");
            let Some(x) = c.guard(&format!("{name}-panics"), &input, || f(&t)) else { continue };
            match strings(&x) {
                Err(e) => c.fail(&format!("{name}-ill-formed"), format!("{e}: {x}"), input),
                Ok(v) => {
                    let hit = v.iter().any(|s| *s == t || s.trim() == t) || *name == "section-rename" && t == "zz";
                    c.check(hit, &format!("{name}-lost"), || format!("the text does not come back from {x}"), || input);
                }
            }
        }
    }
}
