use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    /// text over an alphabet that contains everything XML escaping has to deal with
    pub fn text(&mut self, max: usize) -> String {
        const A: &[char] = &[
            'a', 'b', 'Z', '0', '9', ' ', '&', '<', '>', '"', '\'', ';', '#', '/', '=', 'é', '中', '😀', '.', '-', '_', ':', '!', '[', ']', '?', '\u{7f}', '%', '{', '}', '(', '\\', '$',
        ];
        const W: &[&str] = &["&amp;", "&lt;", "]]>", "<a:t>", "</a:t>", "<!--", "-->", "&#38;", "\"/>", "A & B", "x<y>z", "&quot;", "{}", "&apos;", "it's"];
        let n = self.below(max + 1);
        let mut s = String::new();
        while s.chars().count() < n {
            if self.chance(1, 5) { s.push_str(*self.pick(W)) } else { s.push(*self.pick(A)) }
        }
        s
    }
    pub fn word(&mut self) -> String {
        let n = self.range(1, 8);
        (0..n).map(|_| *self.pick(&['a', 'b', 'c', 'd', 'x', 'y', 'Q', '7'])).collect()
    }
    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = self.below(max + 1);
        (0..n).map(|_| self.next() as u8).collect()
    }
}

pub struct Fail {
    pub key: String,
    pub what: String,
    pub input: String,
}

pub struct Ctx {
    pub rng: Rng,
    pub deadline: Instant,
    pub cases: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub fails: BTreeMap<String, Fail>,
    pub rule: String,
    pub thorough: bool,
    pub panics: std::sync::Arc<std::sync::Mutex<String>>,
}

fn h(s: &str) -> u64 {
    let mut x = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        x ^= b as u64;
        x = x.wrapping_mul(0x100000001b3);
    }
    x
}

impl Ctx {
    pub fn new(seed: u64, secs: u64, thorough: bool) -> Self {
        Ctx {
            rng: Rng(seed.wrapping_mul(0x5851F42D4C957F2D)),
            deadline: Instant::now() + Duration::from_secs(secs),
            cases: 0,
            distinct: HashSet::new(),
            samples: vec![],
            fails: BTreeMap::new(),
            rule: String::new(),
            thorough,
            panics: Default::default(),
        }
    }
    pub fn more(&self) -> bool {
        Instant::now() < self.deadline
    }
    /// rule for a loop of at most `n` random cases (x20 in the thorough tier), within the time budget
    pub fn upto(&self, i: usize, n: usize) -> bool {
        i < if self.thorough { n * 20 } else { n } && self.more()
    }
    pub fn case(&mut self, desc: &str, nontrivial: bool) {
        self.cases += 1;
        if nontrivial && self.distinct.len() < 2_000_000 {
            let new = self.distinct.insert(h(desc));
            if new && (self.samples.len() < 3 || self.samples.len() < 8 && self.cases % 97 == 0) {
                self.samples.push(desc.chars().take(400).collect());
            }
        }
    }
    pub fn fail(&mut self, key: &str, what: impl Into<String>, input: impl Into<String>) {
        let (what, input) = (what.into(), input.into());
        let better = match self.fails.get(key) {
            Some(f) => input.len() < f.input.len(),
            None => true,
        };
        if better {
            self.fails.insert(key.to_string(), Fail { key: key.to_string(), what: what.chars().take(1500).collect(), input: input.chars().take(6000).collect() });
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, what: impl FnOnce() -> String, input: impl FnOnce() -> String) -> bool {
        if !ok {
            let (w, i) = (what(), input());
            self.fail(key, w, i);
        }
        ok
    }
    /// run real code; a panic is a violation of totality, under `key`
    pub fn guard<R>(&mut self, key: &str, input: &str, f: impl FnOnce() -> R) -> Option<R> {
        self.panics.lock().unwrap().clear();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(_) => {
                let m = self.panics.lock().unwrap().clone();
                self.fail(key, format!("panicked: {m}"), input);
                None
            }
        }
    }
}

pub fn jesc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Ctx {
    pub fn json(&self) -> String {
        let f: Vec<String> = self.fails.values().map(|f| format!("{{\"key\":{},\"what\":{},\"input\":{}}}", jesc(&f.key), jesc(&f.what), jesc(&f.input))).collect();
        let s: Vec<String> = self.samples.iter().map(|s| jesc(s)).collect();
        format!("{{\"cases\":{},\"distinct\":{},\"rule\":{},\"samples\":[{}],\"fails\":[{}]}}\n", self.cases, self.distinct.len(), jesc(&self.rule), s.join(","), f.join(","))
    }
}
