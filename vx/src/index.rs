use std::path::Path;
use syn::spanned::Spanned;

#[derive(Clone)]
pub struct FnEntry {
    pub qual: String, // Type::name or name
    pub file: String, // relative to src root
    pub line: usize,
    pub trait_name: Option<String>,
    pub self_ty: Option<syn::Type>,
    pub generics: Option<syn::Generics>,
    pub sig: syn::Signature,
    pub block: syn::Block,
}
#[derive(Clone)]
pub struct TyEntry {
    pub name: String,
    pub file: String,
    pub line: usize,
    pub item: syn::Item,
}
#[derive(Clone)]
pub struct ConstEntry {
    pub name: String, // NAME or Type::NAME
    pub file: String,
    pub item: syn::ItemConst,
}
#[derive(Default)]
pub struct Index {
    pub fns: Vec<FnEntry>,
    pub types: Vec<TyEntry>,
    pub consts: Vec<ConstEntry>,
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        if a.path().is_ident("test") {
            return true;
        }
        if a.path().is_ident("cfg") {
            let s = quote::ToTokens::to_token_stream(a).to_string().replace(' ', "");
            return s.contains("cfg(test)") || s.contains("cfg(kani)");
        }
        false
    })
}

/// the configuration the crate is built in: features cli, pdf-native (with syntect), no tests
struct CfgOff;
fn is_off(attrs: &[syn::Attribute]) -> bool {
    is_test(attrs)
        || attrs.iter().any(|a| {
            let s = quote::ToTokens::to_token_stream(a).to_string().replace(' ', "");
            a.path().is_ident("cfg") && (s.contains("cfg(feature=\"web2ppt\")") || ["syntect", "cli", "pdf-native"].iter().any(|f| s.contains(&format!("cfg(not(feature=\"{f}\"))"))))
        })
}
impl syn::visit_mut::VisitMut for CfgOff {
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        m.arms.retain(|a| !is_off(&a.attrs));
        syn::visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| match s {
            syn::Stmt::Local(l) => !is_off(&l.attrs),
            syn::Stmt::Expr(syn::Expr::Block(e), _) => !is_off(&e.attrs),
            _ => true,
        });
        for s in &mut b.stmts {
            if let syn::Stmt::Local(l) = s {
                l.attrs.retain(|a| !a.path().is_ident("cfg"));
            }
        }
        syn::visit_mut::visit_block_mut(self, b);
    }
    fn visit_item_enum_mut(&mut self, e: &mut syn::ItemEnum) {
        let v: Vec<syn::Variant> = std::mem::take(&mut e.variants).into_iter().filter(|v| !is_off(&v.attrs)).collect();
        e.variants = v.into_iter().collect();
        syn::visit_mut::visit_item_enum_mut(self, e);
    }
}

pub fn type_key(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_key(&r.elem),
        _ => String::new(),
    }
}

/// `include_str!("…")` is the text of that file
struct IncludeStr<'a>(&'a Path);
impl<'a> syn::visit_mut::VisitMut for IncludeStr<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        let syn::Expr::Macro(m) = e else { return };
        if !m.mac.path.is_ident("include_str") {
            return;
        }
        let Ok(l) = syn::parse2::<syn::LitStr>(m.mac.tokens.clone()) else { return };
        if let Ok(t) = std::fs::read_to_string(self.0.join(l.value())) {
            let t = syn::LitStr::new(&t, l.span());
            *e = syn::parse_quote!(#t);
        }
    }
}
impl Index {
    pub fn load(root: &str) -> Result<Index, String> {
        let mut ix = Index::default();
        let mut files = vec![];
        walk(Path::new(root), &mut files);
        files.sort();
        for f in files {
            let rel = f.strip_prefix(root).unwrap().to_string_lossy().trim_start_matches('/').to_string();
            let text = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
            let mut file = syn::parse_file(&text).map_err(|e| format!("{rel}: {e}"))?;
            syn::visit_mut::VisitMut::visit_file_mut(&mut CfgOff, &mut file);
            syn::visit_mut::VisitMut::visit_file_mut(&mut IncludeStr(f.parent().unwrap()), &mut file);
            ix.items(&file.items, &rel);
        }
        Ok(ix)
    }
    fn items(&mut self, items: &[syn::Item], rel: &str) {
        for it in items {
            match it {
                syn::Item::Mod(m) => {
                    if !is_test(&m.attrs) {
                        if let Some((_, its)) = &m.content {
                            self.items(its, rel);
                        }
                    }
                }
                syn::Item::Fn(f) => {
                    if !is_off(&f.attrs) {
                        self.fns.push(FnEntry {
                            qual: f.sig.ident.to_string(),
                            file: rel.into(),
                            line: f.sig.span().start().line,
                            trait_name: None,
                            self_ty: None,
                            generics: None,
                            sig: f.sig.clone(),
                            block: (*f.block).clone(),
                        });
                    }
                }
                syn::Item::Impl(im) => {
                    if is_test(&im.attrs) {
                        continue;
                    }
                    let k = type_key(&im.self_ty);
                    for ii in &im.items {
                        match ii {
                            syn::ImplItem::Fn(f) => self.fns.push(FnEntry {
                                qual: format!("{}::{}", k, f.sig.ident),
                                file: rel.into(),
                                line: f.sig.span().start().line,
                                trait_name: im.trait_.as_ref().map(|(_, p, _)| {
                                    p.segments.last().unwrap().ident.to_string()
                                }),
                                self_ty: Some((*im.self_ty).clone()),
                                generics: Some(im.generics.clone()),
                                sig: f.sig.clone(),
                                block: f.block.clone(),
                            }),
                            syn::ImplItem::Const(c) => self.consts.push(ConstEntry {
                                name: format!("{}::{}", k, c.ident),
                                file: rel.into(),
                                item: syn::ItemConst {
                                    attrs: vec![],
                                    vis: c.vis.clone(),
                                    const_token: c.const_token,
                                    ident: c.ident.clone(),
                                    generics: Default::default(),
                                    colon_token: c.colon_token,
                                    ty: Box::new(c.ty.clone()),
                                    eq_token: c.eq_token,
                                    expr: Box::new(c.expr.clone()),
                                    semi_token: c.semi_token,
                                },
                            }),
                            _ => {}
                        }
                    }
                }
                syn::Item::Struct(s) => {
                    if !is_test(&s.attrs) {
                        self.types.push(TyEntry { name: s.ident.to_string(), file: rel.into(), line: s.span().start().line, item: it.clone() })
                    }
                }
                syn::Item::Enum(s) => {
                    if !is_test(&s.attrs) {
                        self.types.push(TyEntry { name: s.ident.to_string(), file: rel.into(), line: s.span().start().line, item: it.clone() })
                    }
                }
                syn::Item::Const(c) => self.consts.push(ConstEntry { name: c.ident.to_string(), file: rel.into(), item: c.clone() }),
                _ => {}
            }
        }
    }
    /// path filter is a substring of the file path; ignored when it would leave no candidates
    pub fn find_fn(&self, qual: &str, path: Option<&str>, tr: Option<&str>) -> Result<&FnEntry, String> {
        let all: Vec<&FnEntry> = self
            .fns
            .iter()
            .filter(|f| f.qual == qual && tr.map(|t| f.trait_name.as_deref() == Some(t)).unwrap_or(true))
            .collect();
        pick(all, qual, path, |f| &f.file, |f| f.trait_name.is_none())
    }
    pub fn find_type(&self, name: &str, path: Option<&str>) -> Result<&TyEntry, String> {
        pick(self.types.iter().filter(|t| t.name == name).collect(), name, path, |t| &t.file, |_| true)
    }
    pub fn find_const(&self, name: &str, path: Option<&str>) -> Result<&ConstEntry, String> {
        pick(self.consts.iter().filter(|t| t.name == name).collect(), name, path, |t| &t.file, |_| true)
    }
}

fn pick<'a, T>(
    all: Vec<&'a T>,
    name: &str,
    path: Option<&str>,
    file: impl Fn(&T) -> &String,
    prefer: impl Fn(&T) -> bool,
) -> Result<&'a T, String> {
    let mut c = all.clone();
    if let Some(p) = path {
        let f: Vec<&T> = all.iter().copied().filter(|x| file(x).contains(p)).collect();
        if !f.is_empty() {
            c = f;
        }
    }
    if c.len() > 1 {
        let f: Vec<&T> = c.iter().copied().filter(|x| prefer(x)).collect();
        if !f.is_empty() {
            c = f;
        }
    }
    match c.len() {
        0 => Err(format!("{name} not found")),
        1 => Ok(c[0]),
        n => Err(format!("{name} is ambiguous ({n} candidates)")),
    }
}

fn walk(d: &Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out);
            } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                out.push(p);
            }
        }
    }
}
