//! vx: mechanical extraction of functions, types and constants of a Rust crate into a Verus unit.
//!
//! usage: vx <src-root> <unit.vrs> <out.rs> <map.json>
//!
//! The unit is Verus text with `//@` directives; every function body in the output is taken from the
//! source tree given on the command line, rewritten only by the desugarings listed in `desugar.rs`.
//! exit codes: 0 ok, 3 anchor lost (a function/type named by the unit does not exist), 4 construct
//! that the extractor cannot translate, 2 usage / parse errors.
mod desugar;
mod index;
mod print;
mod unit;
mod xmlfx;

use std::collections::BTreeMap;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: vx <src-root> <unit.vrs> <out.rs> <map.json>");
        std::process::exit(2);
    }
    let idx = match index::Index::load(&args[1]) {
        Ok(i) => i,
        Err(e) => {
            eprintln!("VX-PARSE: {e}");
            std::process::exit(2)
        }
    };
    let text = match std::fs::read_to_string(&args[2]) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("VX-UNIT: {e}");
            std::process::exit(2)
        }
    };
    let dir = std::path::Path::new(&args[2]).parent().unwrap().to_path_buf();
    let mut u = unit::Unit::parse(&unit::expand_lits(&text), &dir);
    let mut k = 5;
    while k < args.len() {
        match args[k].as_str() {
            "--vacuity" => u.vacuity = true,
            "--stub" if k + 1 < args.len() => {
                u.stubs.insert(args[k + 1].clone());
                k += 1;
            }
            x => {
                eprintln!("unknown argument {x}");
                std::process::exit(2)
            }
        }
        k += 1;
    }
    let mut out = String::new();
    let mut map: BTreeMap<String, serde_free::Entry> = BTreeMap::new();
    match unit::emit(&u, &idx, &mut out, &mut map) {
        Ok(()) => {}
        Err(unit::EmitErr::Lost(e)) => {
            eprintln!("VX-ANCHOR-LOST: {e}");
            std::process::exit(3)
        }
        Err(unit::EmitErr::Unsupported(e)) => {
            eprintln!("VX-UNSUPPORTED: {e}");
            std::process::exit(4)
        }
    }
    std::fs::write(&args[3], out).unwrap();
    std::fs::write(&args[4], serde_free::dump(&map)).unwrap();
}

/// tiny JSON writer for the extraction map (no serde needed)
pub mod serde_free {
    use std::collections::BTreeMap;
    #[derive(Default, Clone)]
    pub struct Entry {
        pub file: String,
        pub line: usize,
        pub contract: bool,
        pub requires: bool,
        pub dropped: Vec<String>,
        pub inlined: Vec<String>,
    }
    fn esc(s: &str) -> String {
        let mut o = String::new();
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                '\t' => o.push_str("\\t"),
                c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o
    }
    fn arr(v: &[String]) -> String {
        format!("[{}]", v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","))
    }
    pub fn dump(m: &BTreeMap<String, Entry>) -> String {
        let mut parts = vec![];
        for (k, e) in m {
            parts.push(format!(
                "\"{}\":{{\"file\":\"{}\",\"line\":{},\"contract\":{},\"requires\":{},\"dropped\":{},\"inlined\":{}}}",
                esc(k), esc(&e.file), e.line, e.contract, e.requires, arr(&e.dropped), arr(&e.inlined)
            ));
        }
        format!("{{{}}}\n", parts.join(",\n"))
    }
}
