use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
/// Literals that occur in the source under test but not in the tree the checks were written for.
#[derive(Default, Debug)]
pub struct Dict {
    pub strs: Vec<String>,
    pub nums: Vec<usize>,
}
pub static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
pub fn dict() -> &'static Dict {
    DICT.get_or_init(Default::default)
}
/// lines "s <hex>" and "n <decimal>"
pub fn load_dict(text: &str) {
    let mut d = Dict::default();
    for l in text.lines() {
        if let Some(h) = l.strip_prefix("s ") {
            let b: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
            if let Ok(s) = String::from_utf8(b) {
                if !s.is_empty() && s.chars().all(|c| (c as u32) >= 0x20 && c as u32 != 0x7f) {
                    d.strs.push(s);
                }
            }
        } else if let Some(n) = l.strip_prefix("n ").and_then(|n| n.parse::<usize>().ok()) {
            for k in [n.wrapping_sub(1), n, n.saturating_add(1)] {
                if k < 1 << 40 && !d.nums.contains(&k) {
                    d.nums.push(k);
                }
            }
        }
    }
    let _ = DICT.set(d);
}

impl Rng {
    /// a word of the dictionary, now and then
    pub fn dstr(&mut self, p: usize) -> Option<&'static str> {
        let d = dict();
        if d.strs.is_empty() || !self.chance(p) {
            return None;
        }
        Some(self.pick(&d.strs).as_str())
    }
    /// a number of the dictionary up to `max`, now and then
    pub fn dnum(&mut self, p: usize, max: usize) -> Option<usize> {
        let d = dict();
        if d.nums.is_empty() || !self.chance(p) {
            return None;
        }
        let n = *self.pick(&d.nums);
        if n <= max { Some(n) } else { None }
    }
    pub fn new(seed: u64, section: &str, idx: u64) -> Rng {
        let mut h = 0xcbf29ce484222325u64;
        for b in section.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ h ^ idx.wrapping_mul(0xD1B54A32D192ED03));
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0, "vh-skip: nothing to choose from");
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub section: String,
    pub index: u64,
    pub input: String,
    pub expected: String,
    pub got: String,
}

pub enum Out {
    /// (hash of the case, non-trivial?, printable)
    Ok(u64, bool, String),
    Fail { input: String, expected: String, got: String },
    /// the environment did not let the case be decided (connection reset, time-out ...)
    Skip(String),
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub struct Section {
    pub name: String,
    pub planned: u64,
    pub evaluated: u64,
    pub nontrivial: u64,
    pub skipped: u64,
    pub exhaustive: bool,
    pub rule: String,
    pub samples: Vec<String>,
    pub cut: bool,
}

pub struct Run {
    pub prop: String,
    pub seed: u64,
    pub scale: u64,
    pub secs: u64,
    pub start: Instant,
    pub only: Option<(String, Option<u64>)>,
    pub failures: Vec<Fail>,
    pub sections: Vec<Section>,
}

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut p) = PANICS.lock() {
            if p.len() < 1000 {
                p.push(format!("{}", i));
            }
        }
    }));
}
pub fn take_panics() -> Vec<String> {
    std::mem::take(&mut *PANICS.lock().unwrap())
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.iter().take(1500) {
        for e in std::ascii::escape_default(*c) {
            s.push(e as char);
        }
    }
    if b.len() > 1500 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

impl Run {
    pub fn new(prop: &str, seed: u64, scale: u64, secs: u64, only: Option<(String, Option<u64>)>) -> Run {
        Run {
            prop: prop.into(),
            seed,
            scale,
            secs,
            start: Instant::now(),
            only,
            failures: vec![],
            sections: vec![],
        }
    }

    /// Run `n` cases on 8 workers. `exhaustive` says that 0..n enumerates the whole named space.
    pub fn section<F>(&mut self, name: &str, n: u64, exhaustive: bool, rule: &str, f: F)
    where
        F: Fn(&mut crate::net::Worker, u64, &mut Rng) -> Out + Sync,
    {
        let mut lo = 0;
        let mut hi = n;
        if let Some((s, i)) = &self.only {
            if s != name {
                return;
            }
            if let Some(i) = i {
                lo = *i;
                hi = *i + 1;
            }
        }
        let deadline = self.start + Duration::from_secs(self.secs);
        let next = AtomicU64::new(lo);
        let stop = AtomicBool::new(false);
        let cut = AtomicBool::new(false);
        let fails: Mutex<Vec<Fail>> = Mutex::new(vec![]);
        let seen: Mutex<(HashSet<u64>, u64, u64, u64, Vec<String>)> = Mutex::new(Default::default());
        let workers = if hi - lo < 8 { 1 } else { 8 };
        let seed = self.seed;
        std::thread::scope(|sc| {
            for w in 0..workers {
                let (next, stop, cut, fails, seen, f) = (&next, &stop, &cut, &fails, &seen, &f);
                let name = name.to_string();
                std::thread::Builder::new()
                    .name(format!("worker{}", w))
                    .spawn_scoped(sc, move || {
                        let mut wk = crate::net::Worker::new(w);
                        let mut loc: (HashSet<u64>, u64, u64, u64, Vec<String>) = Default::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= hi || stop.load(Ordering::SeqCst) {
                                break;
                            }
                            if Instant::now() > deadline {
                                cut.store(true, Ordering::SeqCst);
                                break;
                            }
                            let mut r = Rng::new(seed, &name, i);
                            let o = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut wk, i, &mut r)))
                                .unwrap_or_else(|e| {
                                    let m = e
                                        .downcast_ref::<String>()
                                        .cloned()
                                        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                                        .unwrap_or_default();
                                    if m.starts_with("vh-skip") {
                                        Out::Skip(m)
                                    } else {
                                        Out::Fail {
                                            input: format!("section {} case {}", name, i),
                                            expected: "no panic".into(),
                                            got: format!("panic: {} {:?}", m, take_panics()),
                                        }
                                    }
                                });
                            match o {
                                Out::Ok(h, nt, s) => {
                                    loc.1 += 1;
                                    if loc.0.insert(h) && nt {
                                        loc.2 += 1;
                                        if loc.4.len() < 2 {
                                            loc.4.push(s);
                                        }
                                    }
                                }
                                Out::Skip(s) => {
                                    loc.3 += 1;
                                    if std::env::var("VH_DEBUG").is_ok() {
                                        eprintln!("skip: {}", s);
                                    }
                                }
                                Out::Fail { input, expected, got } => {
                                    loc.1 += 1;
                                    let mut fl = fails.lock().unwrap();
                                    fl.push(Fail { section: name.clone(), index: i, input, expected, got });
                                    if fl.len() >= 3 {
                                        stop.store(true, Ordering::SeqCst);
                                    }
                                }
                            }
                        }
                        let mut g = seen.lock().unwrap();
                        for h in loc.0 {
                            g.0.insert(h);
                        }
                        g.1 += loc.1;
                        g.2 += loc.2;
                        g.3 += loc.3;
                        g.4.extend(loc.4);
                    })
                    .unwrap();
            }
        });
        let g = seen.into_inner().unwrap();
        let nd = g.2.min(g.0.len() as u64);
        self.sections.push(Section {
            name: name.into(),
            planned: hi - lo,
            evaluated: g.1,
            nontrivial: nd,
            skipped: g.3,
            exhaustive: exhaustive && !cut.load(Ordering::SeqCst) && g.3 == 0,
            rule: rule.into(),
            samples: g.4.into_iter().take(3).collect(),
            cut: cut.load(Ordering::SeqCst),
        });
        let mut fl = fails.into_inner().unwrap();
        fl.sort_by_key(|f| f.index);
        self.failures.extend(fl);
    }

    pub fn report(&self) -> String {
        let mut s = String::from("{\n");
        s.push_str(&format!(" \"property\": {}, \"seed\": {}, \"wall_s\": {:.2},\n", jstr(&self.prop), self.seed, self.start.elapsed().as_secs_f64()));
        s.push_str(" \"sections\": [\n");
        for (i, x) in self.sections.iter().enumerate() {
            s.push_str(&format!(
                "  {{\"name\": {}, \"planned\": {}, \"evaluated\": {}, \"nontrivial\": {}, \"skipped\": {}, \"exhaustive\": {}, \"cut\": {}, \"rule\": {}, \"samples\": [{}]}}{}\n",
                jstr(&x.name), x.planned, x.evaluated, x.nontrivial, x.skipped, x.exhaustive, x.cut, jstr(&x.rule),
                x.samples.iter().map(|t| jstr(t)).collect::<Vec<_>>().join(", "),
                if i + 1 < self.sections.len() { "," } else { "" }
            ));
        }
        s.push_str(" ],\n \"failures\": [\n");
        for (i, f) in self.failures.iter().enumerate() {
            s.push_str(&format!(
                "  {{\"section\": {}, \"index\": {}, \"input\": {}, \"expected\": {}, \"got\": {}}}{}\n",
                jstr(&f.section), f.index, jstr(&f.input), jstr(&f.expected), jstr(&f.got),
                if i + 1 < self.failures.len() { "," } else { "" }
            ));
        }
        s.push_str(" ]\n}\n");
        s
    }
}
