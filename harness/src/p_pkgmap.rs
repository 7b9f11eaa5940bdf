//! C08: a package is a table of named parts, and saving and opening it again changes nothing
use crate::ctx::Ctx;
use crate::pkg::Pkg;
use ppt_rs::opc::Package;
use std::collections::BTreeMap;
use std::io::{Cursor, Read, Write};

type M = BTreeMap<String, Vec<u8>>;
fn table(p: &Package) -> M {
    p.part_paths().iter().map(|k| (k.to_string(), p.get_part(k).map(|b| b.to_vec()).unwrap_or_else(|| b"MISSING".to_vec()))).collect()
}
fn name(c: &mut Ctx) -> String {
    const N: &[&str] = &["ppt/presentation.xml", "ppt/slides/slide1.xml", "PPT/slides/slide1.xml", "ppt/slides/slide10.xml", "ppt/slides/../slide1.xml", "/ppt/slides/slide1.xml", "[Content_Types].xml", "a", "a/b", "a b", "é/中.xml", "a\\b", "ppt/media/image1.png", ".", "x&y<z>"];
    if c.rng.chance(1, 4) { format!("ppt/{}", c.rng.text(12)).trim_end_matches(['/', '\\']).to_string() } else { c.rng.pick(N).to_string() }
}
fn content(c: &mut Ctx) -> Vec<u8> {
    match c.rng.below(6) {
        0 => vec![],
        1 => vec![0],
        2 => vec![b'z'; c.rng.range(0, 70000)],
        3 => c.rng.bytes(3000),
        _ => c.rng.bytes(40),
    }
}
fn show(m: &M) -> String {
    m.iter().map(|(k, v)| format!("{k:?}: {} bytes {:?}..", v.len(), &v[..v.len().min(6)])).collect::<Vec<_>>().join("; ")
}
/// the file entries of an archive, or an error if one of them cannot be read to its end
fn parts_of(d: &[u8]) -> Result<M, String> {
    let mut z = zip::ZipArchive::new(Cursor::new(d)).map_err(|e| e.to_string())?;
    let mut m = M::new();
    for i in 0..z.len() {
        let mut f = z.by_index(i).map_err(|e| e.to_string())?;
        if f.name().ends_with(['/', '\\']) {
            continue;
        }
        let mut b = vec![];
        f.read_to_end(&mut b).map_err(|e| e.to_string())?;
        m.insert(f.name().to_string(), b);
    }
    Ok(m)
}
fn save(p: &Package) -> Result<Vec<u8>, String> {
    let mut v = Cursor::new(vec![]);
    p.save_writer(&mut v).map_err(|e| e.to_string())?;
    Ok(v.into_inner())
}
pub fn round(c: &mut Ctx, p: &Package, want: &M, key: &str, log: &str) {
    let Some(r) = c.guard("save-panics", log, || save(p)) else { return };
    let b = match r {
        Ok(b) => b,
        Err(e) => return c.fail("save-fails", e, log),
    };
    // an independent reader sees the table ...
    match Pkg::open(&b) {
        Ok(q) => {
            c.check(&q.parts == want, &format!("{key}-written"), || format!("written: {} expected: {}", show(&q.parts), show(want)), || log.into());
        }
        Err(e) => c.fail(&format!("{key}-unreadable"), e, log),
    }
    // ... and so does the library
    match c.guard("open-panics", log, || Package::open_reader(Cursor::new(b)).map_err(|e| e.to_string())) {
        Some(Ok(q)) => {
            let t = table(&q);
            c.check(&t == want && q.part_count() == want.len(), &format!("{key}-reopened"), || format!("opened again: {} expected: {}", show(&t), show(want)), || log.into());
        }
        Some(Err(e)) => c.fail(&format!("{key}-reopen-fails"), e, log),
        None => {}
    }
}
pub fn run(c: &mut Ctx) {
    c.rule = "random histories of part operations against a table model; every history ends in a save, read back by an independent zip reader and by the library; archives written by an independent writer (directories, stored and deflated, repeated names, damaged bytes); non-trivial: at least two parts".into();
    let dir = std::env::temp_dir();
    let mut n = 0;
    while c.upto(n, 1500) {
        n += 1;
        let mut p = if c.rng.chance(1, 2) { Package::new() } else { Package::default() };
        let mut m = M::new();
        let mut log = String::new();
        let many = c.rng.chance(1, 20);
        for _ in 0..if many { c.rng.range(20, 200) } else { c.rng.range(0, 12) } {
            let k = if many && c.rng.chance(3, 4) { format!("p{}", c.rng.below(100)) } else { name(c) };
            match c.rng.below(8) {
                0..=3 => {
                    let b = content(c);
                    log.push_str(&format!("add {k:?} {} bytes; ", b.len()));
                    p.add_part(k.clone(), b.clone());
                    m.insert(k.clone(), b);
                }
                4 => {
                    log.push_str(&format!("remove {k:?}; "));
                    let (g, w) = (p.remove_part(&k), m.remove(&k));
                    c.check(g == w, "remove", || format!("remove_part gives {:?} bytes, expected {:?}", g.map(|g| g.len()), w.map(|w| w.len())), || log.clone());
                }
                5 => {
                    if let Some(b) = p.get_part_mut(&k) {
                        b.push(7);
                        log.push_str(&format!("append to {k:?}; "));
                    }
                    if let Some(b) = m.get_mut(&k) { b.push(7) }
                }
                _ => {}
            }
            c.check(p.get_part(&k) == m.get(&k).map(|v| v.as_slice()), "get", || format!("get_part({k:?}) gives {:?} bytes, expected {:?}", p.get_part(&k).map(|b| b.len()), m.get(&k).map(|b| b.len())), || log.clone());
            c.check(p.has_part(&k) == m.contains_key(&k), "has", || format!("has_part({k:?})"), || log.clone());
            c.check(p.part_count() == m.len(), "count", || format!("part_count {} expected {}", p.part_count(), m.len()), || log.clone());
            let s = p.get_part_string(&k);
            c.check(s == m.get(&k).map(|v| String::from_utf8_lossy(v).to_string()), "get-string", || format!("get_part_string({k:?}) = {s:?}"), || log.clone());
        }
        let t = table(&p);
        c.check(t == m, "paths", || format!("parts: {} expected: {}", show(&t), show(&m)), || log.clone());
        c.case(&log, m.len() > 1);
        round(c, &p, &m, "saved", &log);
        if n % 15 == 0 {
            let f = dir.join("p.pptx");
            if c.rng.chance(1, 2) {
                let _ = std::fs::write(&f, vec![b'x'; 100_000]);
            }
            let r = c.guard("save-panics", &log, || p.save(&f).map_err(|e| e.to_string()).and_then(|_| Package::open(&f).map_err(|e| e.to_string())));
            if let Some(Ok(q)) = &r {
                let t = table(q);
                c.check(t == m, "file-reopened", || format!("opened again: {} expected: {}", show(&t), show(&m)), || log.clone());
            } else if let Some(Err(e)) = r {
                c.fail("file-reopen-fails", e, &log);
            }
            let _ = std::fs::remove_file(&f);
        }
    }
    // archives from elsewhere
    let mut n = 0;
    while c.upto(n, 600) {
        n += 1;
        let mut z = zip::ZipWriter::new(Cursor::new(vec![]));
        let mut m = M::new();
        let mut log = String::from("archive: ");
        for i in 0..c.rng.below(8) {
            let k = name(c);
            if m.contains_key(&k) {
                continue;
            }
            if c.rng.chance(1, 5) {
                let _ = z.add_directory(format!("dir{i}"), zip::write::FileOptions::default());
                log.push_str("dir; ");
                continue;
            }
            let b = content(c);
            let me = *c.rng.pick(&[zip::CompressionMethod::Stored, zip::CompressionMethod::Deflated]);
            z.start_file(k.clone(), zip::write::FileOptions::default().compression_method(me)).unwrap();
            z.write_all(&b).unwrap();
            log.push_str(&format!("{k:?} {} bytes {me}; ", b.len()));
            m.insert(k, b);
        }
        let b = z.finish().unwrap().into_inner();
        c.case(&log, m.len() > 1);
        match c.guard("open-panics", &log, || Package::open_reader(Cursor::new(b.clone())).map_err(|e| e.to_string())) {
            Some(Ok(q)) => {
                let t = table(&q);
                c.check(t == m, "opened", || format!("opened: {} archive holds: {}", show(&t), show(&m)), || log.clone());
                round(c, &q, &m, "copied", &log);
            }
            Some(Err(e)) => c.fail("open-fails", e, &log),
            None => {}
        }
        // a damaged archive is refused, or what is read is what it holds; never a panic, never a part cut short
        let mut d = b.clone();
        if !d.is_empty() {
            match c.rng.below(3) {
                0 => { let k = c.rng.below(d.len()); d.truncate(k) }
                1 => { for _ in 0..c.rng.range(1, 4) { let k = c.rng.below(d.len()); d[k] ^= 1 << c.rng.below(8) } }
                _ => { let k = c.rng.below(d.len()); let x = c.rng.bytes(5); d.splice(k..k, x); }
            }
        }
        let log = format!("{log} damaged: {d:?}");
        if let Some(Ok(q)) = c.guard("open-panics", &log, || Package::open_reader(Cursor::new(d.clone()))) {
            let t = table(&q);
            let w = parts_of(&d);
            c.check(w.as_ref() == Ok(&t), "damaged-opened", || format!("opened: {} archive holds: {:?}", show(&t), w.as_ref().map(show)), || log.clone());
        }
    }
}
