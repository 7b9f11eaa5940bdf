//! vharness <property> <out.json> <seconds> <tier> : replays contracts on the compiled crate.
mod ctx;
mod genr;
mod pkg;
mod p_escape;
mod p_media;
mod p_sections;
mod p_ids;
mod p_pkgmap;
mod p_color;
mod p_measure;
mod p_image;
mod p_reader;
mod p_editor;
mod p_chart;
mod p_valid;
mod p_repair;
mod p_compress;
mod p_package;
mod p_table_merge;
use ctx::Ctx;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: u64 = a[3].parse().unwrap();
    let mut c = Ctx::new(seed, secs, a[4] == "thorough");
    let p = c.panics.clone();
    let last = c.panics.clone();
    std::panic::set_hook(Box::new(move |i| {
        *p.lock().unwrap() = i.to_string();
    }));
    let prop = a[1].clone();
    // a large stack: deep recursion in the code under test must not be mistaken for a crash of the harness
    let out = a[2].clone();
    let t = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            match prop.as_str() {
                "C02" => p_package::run(&mut c, true),
                "C03" => p_package::run(&mut c, false),
                "C05" => p_table_merge::run(&mut c),
                "C01" => p_escape::run(&mut c),
                "C04" => p_media::run(&mut c),
                "C06" => p_sections::run(&mut c),
                "C07" => p_ids::run(&mut c),
                "C08" => p_pkgmap::run(&mut c),
                "C13" => p_color::run(&mut c),
                "C12" => p_measure::run(&mut c),
                "C14" => p_image::run(&mut c),
                "C15" => p_reader::run(&mut c),
                "C09" => p_editor::run(&mut c),
                "C17" => p_chart::run(&mut c),
                "C10" => p_valid::run(&mut c),
                "C11" => p_repair::run(&mut c),
                "C16" => p_compress::run(&mut c),
                x => panic!("unknown property {x}"),
            }
            c
        })
        .unwrap();
    match t.join() {
        Ok(c) => std::fs::write(&out, c.json()).unwrap(),
        Err(_) => {
            eprintln!("harness bug: panic outside a guarded call: {}", last.lock().map(|m| m.clone()).unwrap_or_default());
            std::process::exit(9)
        }
    }
}

pub fn b64(d: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() { o.push(T[(n >> (18 - 6 * k) & 63) as usize] as char) } else { o.push('=') }
        }
    }
    o
}
