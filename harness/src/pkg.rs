//! an independent view of a produced package: zip directory, XML trees, relationships, content types
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Read;
use xml::reader::{EventReader, ParserConfig, XmlEvent};

#[derive(Clone, Debug, Default)]
pub struct Node {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
    pub text: String,
}
impl Node {
    pub fn attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str())
    }
    pub fn walk<'a>(&'a self, f: &mut impl FnMut(&'a Node)) {
        f(self);
        for k in &self.kids {
            k.walk(f);
        }
    }
    pub fn all<'a>(&'a self, name: &str) -> Vec<&'a Node> {
        let mut v = vec![];
        self.walk(&mut |n| if n.name == name { v.push(n) });
        v
    }
    /// descendants (without itself) with that name, whatever the prefix
    pub fn all_local<'a>(&'a self, l: &str) -> Vec<&'a Node> {
        let mut v = vec![];
        for k in &self.kids {
            k.walk(&mut |n| if n.name.rsplit(':').next() == Some(l) { v.push(n) });
        }
        v
    }
    pub fn locals(&self, l: &str) -> Vec<&Node> {
        self.kids.iter().filter(|k| k.name.rsplit(':').next() == Some(l)).collect()
    }
    pub fn local(&self, l: &str) -> Option<&Node> {
        self.locals(l).into_iter().next()
    }
    pub fn kid(&self, name: &str) -> Option<&Node> {
        self.kids.iter().find(|k| k.name == name)
    }
    pub fn first<'a>(&'a self, name: &str) -> Option<&'a Node> {
        self.all(name).into_iter().next()
    }
    /// concatenated text below
    pub fn deep_text(&self) -> String {
        let mut s = String::new();
        self.walk(&mut |n| s.push_str(&n.text));
        s
    }
}
pub fn parse_xml(b: &[u8]) -> Result<Node, String> {
    let b = b.strip_prefix(&[0xEF, 0xBB, 0xBF]).unwrap_or(b);
    let p = EventReader::new_with_config(b, ParserConfig::new().trim_whitespace(false).cdata_to_characters(true).ignore_comments(true));
    let mut st = vec![Node { name: "#doc".into(), ..Default::default() }];
    let nm = |n: &xml::name::OwnedName| match &n.prefix {
        Some(p) => format!("{p}:{}", n.local_name),
        None => n.local_name.clone(),
    };
    for e in p {
        match e.map_err(|e| e.to_string())? {
            XmlEvent::StartElement { name, attributes, .. } => st.push(Node { name: nm(&name), attrs: attributes.iter().map(|a| (nm(&a.name), a.value.clone())).collect(), ..Default::default() }),
            XmlEvent::EndElement { .. } => {
                let n = st.pop().unwrap();
                st.last_mut().unwrap().kids.push(n);
            }
            XmlEvent::Characters(s) | XmlEvent::Whitespace(s) => st.last_mut().unwrap().text.push_str(&s),
            _ => {}
        }
    }
    let d = st.pop().unwrap();
    if d.kids.len() != 1 || !d.text.trim_matches(|c| matches!(c, ' ' | '\t' | '\r' | '\n')).is_empty() {
        return Err("not one root element".into());
    }
    d.kids.into_iter().next().ok_or_else(|| "no root element".into())
}
#[derive(Clone, Debug)]
pub struct Rel {
    pub id: String,
    pub ty: String,
    pub target: String,
    pub external: bool,
}
pub struct Pkg {
    pub names: Vec<String>,
    pub parts: BTreeMap<String, Vec<u8>>,
}
/// names as the central directory lists them, duplicates included
fn directory(b: &[u8]) -> Option<Vec<String>> {
    let e = (0..=b.len().checked_sub(22)?).rev().find(|&i| b[i..].starts_with(&[0x50, 0x4b, 5, 6]))?;
    let n = u16::from_le_bytes([b[e + 10], b[e + 11]]) as usize;
    let mut o = u32::from_le_bytes(b[e + 16..e + 20].try_into().ok()?) as usize;
    let mut v = vec![];
    for _ in 0..n {
        if b.get(o..o + 4)? != [0x50, 0x4b, 1, 2] {
            return None;
        }
        let l = |k: usize| u16::from_le_bytes([b[o + k], b[o + k + 1]]) as usize;
        let (nl, xl, cl) = (l(28), l(30), l(32));
        v.push(String::from_utf8_lossy(b.get(o + 46..o + 46 + nl)?).into_owned());
        o += 46 + nl + xl + cl;
    }
    Some(v)
}
impl Pkg {
    pub fn open(b: &[u8]) -> Result<Pkg, String> {
        let names = directory(b).ok_or("unreadable zip directory")?;
        let mut z = zip::ZipArchive::new(std::io::Cursor::new(b)).map_err(|e| e.to_string())?;
        let mut parts = BTreeMap::new();
        for i in 0..z.len() {
            let mut f = z.by_index(i).map_err(|e| e.to_string())?;
            let mut d = vec![];
            f.read_to_end(&mut d).map_err(|e| e.to_string())?;
            parts.insert(f.name().to_string(), d);
        }
        Ok(Pkg { names, parts })
    }
    pub fn xml(&self, name: &str) -> Option<Node> {
        parse_xml(self.parts.get(name)?).ok()
    }
    pub fn text(&self, name: &str) -> String {
        self.parts.get(name).map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default()
    }
    pub fn is_xml(n: &str) -> bool {
        n.ends_with(".xml") || n.ends_with(".rels") || n.ends_with(".sigs")
    }
    pub fn ill_formed(&self) -> Vec<(String, String)> {
        self.parts.iter().filter(|(n, _)| Self::is_xml(n)).filter_map(|(n, b)| parse_xml(b).err().map(|e| (n.clone(), e))).collect()
    }
    pub fn rels_name(part: &str) -> String {
        match part.rsplit_once('/') {
            Some((d, f)) => format!("{d}/_rels/{f}.rels"),
            None => format!("_rels/{part}.rels"),
        }
    }
    pub fn rels_of(&self, part: &str) -> Vec<Rel> {
        let n = if part.is_empty() { "_rels/.rels".to_string() } else { Self::rels_name(part) };
        let Some(x) = self.xml(&n) else { return vec![] };
        x.all("Relationship")
            .iter()
            .map(|r| Rel {
                id: r.attr("Id").unwrap_or("").into(),
                ty: r.attr("Type").unwrap_or("").rsplit('/').next().unwrap_or("").into(),
                target: r.attr("Target").unwrap_or("").into(),
                external: r.attr("TargetMode") == Some("External"),
            })
            .collect()
    }
    pub fn resolve(source: &str, target: &str) -> String {
        if let Some(t) = target.strip_prefix('/') {
            return t.to_string();
        }
        let mut segs: Vec<&str> = source.split('/').collect();
        segs.pop();
        for s in target.split('/') {
            match s {
                "" | "." => {}
                ".." => {
                    segs.pop();
                }
                s => segs.push(s),
            }
        }
        segs.join("/")
    }
    pub fn target(&self, source: &str, rid: &str) -> Option<(String, String)> {
        self.rels_of(source).into_iter().find(|r| r.id == rid).map(|r| (r.ty.clone(), Self::resolve(source, &r.target)))
    }
    /// slide parts in presentation order
    pub fn slides(&self) -> Vec<String> {
        let Some(p) = self.xml("ppt/presentation.xml") else { return vec![] };
        p.all("p:sldId").iter().map(|s| s.attr("r:id").and_then(|r| self.target("ppt/presentation.xml", r)).map(|x| x.1).unwrap_or_default()).collect()
    }
    pub fn content_type(&self, part: &str) -> Option<String> {
        let ct = self.xml("[Content_Types].xml")?;
        let p = format!("/{part}");
        for o in ct.all("Override") {
            if o.attr("PartName").is_some_and(|x| x.eq_ignore_ascii_case(&p)) {
                return o.attr("ContentType").map(|s| s.into());
            }
        }
        let ext = part.rsplit('/').next()?.rsplit_once('.')?.1;
        ct.all("Default").iter().find(|d| d.attr("Extension").is_some_and(|e| e.eq_ignore_ascii_case(ext))).and_then(|d| d.attr("ContentType").map(|s| s.into()))
    }
    /// every way the package fails to be closed; (key, what)
    pub fn problems(&self) -> Vec<(String, String)> {
        let mut out: Vec<(String, String)> = vec![];
        let mut seen = BTreeSet::new();
        for n in &self.names {
            if !seen.insert(n.to_lowercase()) {
                out.push(("duplicate-part".into(), format!("part {n} is stored twice")));
            }
        }
        let ill = self.ill_formed();
        for (n, e) in &ill {
            out.push((format!("ill-formed:{}", part_kind(n)), format!("{n} is not well-formed XML: {e}")));
        }
        let Some(ct) = self.xml("[Content_Types].xml") else {
            out.push(("no-content-types".into(), "[Content_Types].xml missing or unreadable".into()));
            return out;
        };
        let mut ov = BTreeSet::new();
        for o in ct.all("Override") {
            let p = o.attr("PartName").unwrap_or("");
            if !ov.insert(p.to_lowercase()) {
                out.push(("duplicate-override".into(), format!("two Override entries for {p}")));
            }
            if !self.parts.contains_key(p.trim_start_matches('/')) {
                out.push((format!("override-missing:{}", part_kind(p.trim_start_matches('/'))), format!("Override for {p}, which is not in the package")));
            }
        }
        let mut df = BTreeSet::new();
        for d in ct.all("Default") {
            let e = d.attr("Extension").unwrap_or("").to_lowercase();
            if !df.insert(e.clone()) {
                out.push(("duplicate-default".into(), format!("two Default entries for .{e}")));
            }
        }
        for n in self.parts.keys() {
            if n == "[Content_Types].xml" || n.ends_with('/') {
                continue;
            }
            match self.content_type(n) {
                None => out.push((format!("no-content-type:{}", part_kind(n)), format!("{n} has no content type"))),
                Some(t) => {
                    if let Some(want) = expected_type(n) {
                        if t != want {
                            out.push((format!("wrong-content-type:{}", part_kind(n)), format!("{n} has content type {t}, expected {want}")));
                        }
                    }
                }
            }
        }
        let mut rel_cache: HashMap<String, Vec<Rel>> = HashMap::new();
        for n in self.parts.keys().filter(|n| n.ends_with(".rels")) {
            let src = if n == "_rels/.rels" {
                String::new()
            } else {
                let Some((d, f)) = n.rsplit_once('/') else { continue };
                let base = d.strip_suffix("_rels").unwrap_or(d);
                format!("{base}{}", f.strip_suffix(".rels").unwrap())
            };
            if !src.is_empty() && !self.parts.contains_key(&src) {
                out.push((format!("rels-without-part:{}", part_kind(&src)), format!("{n} describes {src}, which is not in the package")));
            }
            let rels = self.rels_of(&src);
            let mut ids = BTreeSet::new();
            for r in &rels {
                if r.id.is_empty() || !ids.insert(r.id.clone()) {
                    out.push((format!("duplicate-rel-id:{}", part_kind(&src)), format!("{n}: relationship id {:?} is empty or repeated", r.id)));
                }
                if !r.external && !r.target.starts_with("ppaction:") && !r.target.starts_with('#') && r.target != "NULL" {
                    let t = Self::resolve(&src, &r.target);
                    if !self.parts.contains_key(&t) {
                        out.push((format!("dangling-rel:{}:{}", part_kind(&src), r.ty), format!("{n}: {} -> {} ({t}) is not in the package", r.id, r.target)));
                    } else if let Some(k) = expected_target(&r.ty) {
                        if !t.contains(k) {
                            out.push((format!("wrong-rel-target:{}:{}", part_kind(&src), r.ty), format!("{n}: a {} relationship leads to {t}", r.ty)));
                        }
                    }
                }
            }
            rel_cache.insert(src, rels);
        }
        for n in self.parts.keys().filter(|n| n.ends_with(".xml")) {
            let Some(x) = self.xml(n) else { continue };
            let none = vec![];
            let rels = rel_cache.get(n).unwrap_or(&none);
            x.walk(&mut |e| {
                for (k, v) in &e.attrs {
                    if !k.starts_with("r:") || v.is_empty() {
                        continue;
                    }
                    match rels.iter().find(|r| &r.id == v) {
                        None => out.push((format!("unknown-rid:{}:{}", part_kind(n), e.name), format!("{n}: <{}> refers to {v}, which its relationships do not define", e.name))),
                        Some(r) => {
                            let want: &[&str] = match e.name.as_str() {
                                "p:sldId" => &["slide"],
                                "p:sldMasterId" => &["slideMaster"],
                                "p:sldLayoutId" => &["slideLayout"],
                                "p:notesMasterId" => &["notesMaster"],
                                "p:handoutMasterId" => &["handoutMaster"],
                                "c:chart" => &["chart"],
                                "a:blip" => &["image"],
                                "p:contentPart" => &["ink", "customXml"],
                                "a:hlinkClick" => &["hyperlink", "slide"],
                                "c:externalData" => &["package"],
                                "p:regular" | "p:bold" | "p:italic" | "p:boldItalic" => &["font"],
                                _ => &[],
                            };
                            if !want.is_empty() && !want.contains(&r.ty.as_str()) {
                                out.push((format!("wrong-rel-type:{}:{}", part_kind(n), e.name), format!("{n}: <{}> refers to {v}, a {} relationship", e.name, r.ty)));
                            }
                        }
                    }
                }
            });
            if n.starts_with("ppt/slides/") || n.starts_with("ppt/notesSlides/") {
                let mut ids = BTreeSet::new();
                for c in x.all("p:cNvPr") {
                    if !ids.insert(c.attr("id").unwrap_or("").to_string()) {
                        out.push((format!("duplicate-shape-id:{}", part_kind(n)), format!("{n}: two objects share the id {:?}", c.attr("id"))));
                    }
                }
            }
        }
        if let Some(p) = self.xml("ppt/presentation.xml") {
            let mut ids = BTreeSet::new();
            let mut rids = BTreeSet::new();
            for s in p.all("p:sldId") {
                let v: u64 = s.attr("id").and_then(|x| x.parse().ok()).unwrap_or(0);
                if v < 256 || v >= 2147483648 || !ids.insert(v) {
                    out.push(("slide-id".into(), format!("slide id {v} is out of range or repeated")));
                }
                if !rids.insert(s.attr("r:id").unwrap_or("").to_string()) {
                    out.push(("slide-rid".into(), format!("two slides use relationship {:?}", s.attr("r:id"))));
                }
            }
        }
        out
    }
}
pub fn part_kind(n: &str) -> String {
    let f = n.rsplit('/').next().unwrap_or(n);
    let s: String = f.chars().filter(|c| !c.is_ascii_digit()).collect();
    if n.starts_with("ppt/fonts/") {
        return "font".into();
    }
    s.replace(' ', "_")
}
fn expected_type(n: &str) -> Option<&'static str> {
    const P: &str = "application/vnd.openxmlformats-officedocument.presentationml.";
    let _ = P;
    Some(match part_kind(n).as_str() {
        "slide.xml" => "application/vnd.openxmlformats-officedocument.presentationml.slide+xml",
        "slideLayout.xml" => "application/vnd.openxmlformats-officedocument.presentationml.slideLayout+xml",
        "slideMaster.xml" => "application/vnd.openxmlformats-officedocument.presentationml.slideMaster+xml",
        "notesSlide.xml" => "application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml",
        "notesMaster.xml" => "application/vnd.openxmlformats-officedocument.presentationml.notesMaster+xml",
        "handoutMaster.xml" => "application/vnd.openxmlformats-officedocument.presentationml.handoutMaster+xml",
        "theme.xml" => "application/vnd.openxmlformats-officedocument.theme+xml",
        "chart.xml" => "application/vnd.openxmlformats-officedocument.drawingml.chart+xml",
        "presentation.xml" => "application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml",
        "image.png" => "image/png",
        "image.jpg" => "image/jpeg",
        "image.gif" => "image/gif",
        _ => return None,
    })
}
fn expected_target(ty: &str) -> Option<&'static str> {
    Some(match ty {
        "slide" => "slides/slide",
        "slideLayout" => "slideLayouts/slideLayout",
        "slideMaster" => "slideMasters/slideMaster",
        "notesSlide" => "notesSlides/notesSlide",
        "notesMaster" => "notesMasters/notesMaster",
        "handoutMaster" => "handoutMasters/handoutMaster",
        "theme" => "theme/theme",
        "chart" => "charts/chart",
        "image" => "media/image",
        "ink" => "ink/ink",
        "font" => "fonts/",
        _ => return None,
    })
}
