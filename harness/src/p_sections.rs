//! C06: sections partition slides
use crate::ctx::Ctx;
use crate::pkg::parse_xml;
use ppt_rs::generator::{SectionManager, SlideSection};

type S = (String, u128, u128);
fn has(s: &S, k: u128) -> bool {
    s.1 <= k && k < s.1 + s.2
}
pub fn run(c: &mut Ctx) {
    c.rule = "random histories of add, remove, rename, clear on a section manager, compared after each step with a list of disjoint slide ranges in exact arithmetic; non-trivial: an addition accepted and another rejected".into();
    let names = ["A", "B", "C", "A&B", "<x>", "\"q\"", "é'", ""];
    let mut n = 0;
    while c.upto(n, 12000) {
        n += 1;
        let mut m = SectionManager::new();
        let mut w: Vec<S> = vec![];
        let mut log = "SectionManager::new()".to_string();
        let (mut ok, mut bad) = (0, 0);
        let long = c.rng.chance(1, 12);
        for _ in 0..if long { c.rng.range(10, 60) } else { c.rng.range(1, 9) } {
            match c.rng.below(10) {
                0 => {
                    let nm = *c.rng.pick(&names);
                    log.push_str(&format!(".remove_section({nm:?})"));
                    let r = m.remove_section(nm);
                    let e = w.iter().any(|s| s.0 == nm);
                    w.retain(|s| s.0 != nm);
                    c.check(r == e, "remove", || format!("remove gives {r}, expected {e}"), || log.clone());
                }
                1 => {
                    let (a, b) = (*c.rng.pick(&names), *c.rng.pick(&names));
                    log.push_str(&format!(".rename_section({a:?},{b:?})"));
                    let r = m.rename_section(a, b);
                    let k = m.sections().iter().zip(&w).position(|(x, y)| x.name != y.0);
                    let e = w.iter().position(|s| s.0 == a);
                    c.check(r == e.is_some(), "rename", || format!("rename gives {r}"), || log.clone());
                    if let Some(e) = e {
                        // exactly one section of that name is renamed
                        let k = k.unwrap_or(e);
                        if w.get(k).map(|s| s.0 == a).unwrap_or(false) { w[k].0 = b.to_string() }
                    }
                }
                2 if c.rng.chance(1, 4) => {
                    log.push_str(".clear()");
                    m.clear();
                    w.clear();
                }
                _ => {
                    let nm = *c.rng.pick(&names);
                    let big = c.rng.chance(1, 25);
                    let (f, k) = if big { (*c.rng.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, 3]), *c.rng.pick(&[usize::MAX, usize::MAX - 2, 1, 2])) } else if long { (c.rng.below(150), c.rng.below(9)) } else { (c.rng.below(10), c.rng.below(5)) };
                    log.push_str(&format!(".add_section({nm:?},{f},{k})"));
                    let s: S = (nm.to_string(), f as u128, k as u128);
                    let (lo, hi) = (s.1, (s.1 + s.2).min(usize::MAX as u128 + 1));
                    let clash = w.iter().any(|x| lo.max(x.1) < hi.min((x.1 + x.2).min(usize::MAX as u128 + 1)));
                    let Some(r) = c.guard("section-panics", &log.clone(), || m.add_section(nm, f, k)) else { break };
                    c.check(r.is_ok() == !clash, "accept", || format!("add accepted={} but the slides {}", r.is_ok(), if clash { "belong to another section" } else { "are free" }), || log.clone());
                    if r.is_ok() != !clash { break }
                    if !clash {
                        ok += 1;
                        let p = w.iter().filter(|x| x.1 <= s.1).count();
                        w.insert(p, s);
                    } else {
                        bad += 1;
                    }
                }
            }
            let got: Vec<S> = m.sections().iter().map(|s| (s.name.clone(), s.first_slide as u128, s.slide_count as u128)).collect();
            let (mut a, mut b) = (got.clone(), w.clone());
            a.sort();
            b.sort();
            if !c.check(a == b, "sections", || format!("sections {got:?}, expected {w:?}"), || log.clone()) { break }
            c.check(got.windows(2).all(|p| p[0].1 <= p[1].1), "section-order", || format!("sections not in slide order: {got:?}"), || log.clone());
            w = got;
            c.check(m.len() == w.len() && m.is_empty() == w.is_empty(), "section-count", || format!("len {} is_empty {}", m.len(), m.is_empty()), || log.clone());
            for k in [0, 1, 2, 3, 5, 8, 12, usize::MAX / 2 + 3, usize::MAX - 1, usize::MAX] {
                let e = w.iter().find(|s| has(s, k as u128));
                let g = m.section_for_slide(k);
                c.check(g.map(|g| (g.first_slide as u128, g.slide_count as u128)) == e.map(|e| (e.1, e.2)), "section-of-slide", || format!("slide {k}: {g:?}, expected {e:?}"), || log.clone());
            }
            for nm in &names {
                let g = m.get_section(nm);
                c.check(g.map(|g| g.name.as_str()) == w.iter().find(|s| s.0 == *nm).map(|s| s.0.as_str()), "section-by-name", || format!("{nm:?}: {g:?}"), || log.clone());
            }
        }
        let total = c.rng.below(14);
        let x = c.guard("section-panics", &format!("{log}.to_xml({total})"), || m.to_xml(total));
        if let Some(x) = x {
            let inp = format!("{log}.to_xml({total})");
            if w.is_empty() {
                c.check(x.is_empty(), "section-xml", || x.clone(), || inp.clone());
            } else {
                match parse_xml(format!("<r xmlns:p=\"p\">{x}</r>").as_bytes()) {
                    Err(e) => c.fail("section-xml-ill-formed", e, inp),
                    Ok(r) => {
                        let got: Vec<(String, Vec<String>)> = r.all("p14:section").iter().map(|s| (s.attr("name").unwrap_or("?").to_string(), s.all("p14:sldId").iter().map(|i| i.attr("id").unwrap_or("?").to_string()).collect())).collect();
                        let want: Vec<(String, Vec<String>)> = w.iter().map(|s| (s.0.clone(), (0..total as u128).filter(|k| has(s, *k)).map(|k| (256 + k).to_string()).collect())).collect();
                        let mut gs: Vec<&str> = r.all("p14:section").iter().map(|s| s.attr("id").unwrap_or("")).collect();
                        gs.sort();
                        c.check(gs.windows(2).all(|p| p[0] != p[1]), "section-id-repeated", || format!("section ids {gs:?}"), || inp.clone());
                        c.check(got == want, "section-xml", || format!("written {got:?}, expected {want:?}"), || inp);
                        c.check(r.all("p14:section").iter().all(|s| { let g = s.attr("id").unwrap_or(""); g.len() == 38 && g.starts_with('{') && g.ends_with('}') && g[1..37].chars().enumerate().all(|(i, ch)| if [8, 13, 18, 23].contains(&i) { ch == '-' } else { ch.is_ascii_hexdigit() }) }), "section-guid", || x.clone(), || log.clone());
                    }
                }
            }
        }
        c.case(&log, ok > 0 && bad > 0);
    }
    // one section on its own
    let mut n = 0;
    while c.upto(n, 3000) {
        n += 1;
        let v = |c: &mut Ctx| if c.rng.chance(1, 5) { usize::MAX - c.rng.below(3) } else { c.rng.below(6) };
        let (f, k) = (v(c), v(c));
        let log = format!("SlideSection::new(\"x\",{f},{k})");
        c.case(&log, k > 0);
        let s = SlideSection::new("x", f, k);
        let Some(l) = c.guard("section-panics", &log, || s.last_slide()) else { continue };
        let e = if k == 0 { f as u128 } else { (f as u128 + k as u128 - 1).min(usize::MAX as u128) };
        c.check(l as u128 == e, "last-slide", || format!("last_slide {l}, expected {e}"), || log.clone());
        let q = v(c);
        c.check(s.contains_slide(q) == (f as u128 <= q as u128 && (q as u128) < f as u128 + k as u128), "contains-slide", || format!("contains_slide({q})"), || log.clone());
    }
}
