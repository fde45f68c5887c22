//! Choice-sequence property-based testing engine.
//!
//! A case is a pure function of a sequence of bounded choices. Fresh cases draw the choices from a
//! seeded PRNG; replay and shrinking feed back a recorded sequence (missing choices read as 0, which
//! generators arrange to be the simplest alternative).
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s);
        Rng(a | 1, b)
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let s0 = self.0;
        let mut s1 = self.1;
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r ^ (r >> 29)
    }
}
pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut t = h;
    splitmix(&mut t)
}

/// Source of choices.
pub struct Src {
    rng: Option<Rng>,
    prefix: Vec<u64>,
    pub rec: Vec<u64>,
    pub max_len: usize,
}
impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), prefix: vec![], rec: vec![], max_len: 1 << 20 }
    }
    pub fn replay(choices: &[u64]) -> Src {
        Src { rng: None, prefix: choices.to_vec(), rec: vec![], max_len: 1 << 20 }
    }
    /// A number in `0..n` (n >= 1).
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { return 0; }
        let i = self.rec.len();
        let v = if i < self.prefix.len() {
            self.prefix[i] % n
        } else if let Some(ref mut r) = self.rng {
            if i >= self.max_len { 0 } else { r.next() % n }
        } else { 0 };
        self.rec.push(v);
        v
    }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// Inclusive range.
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as u64) as i64 }
    pub fn u64(&mut self) -> u64 {
        let a = self.below(1 << 32);
        let b = self.below(1 << 32);
        (a << 32) | b
    }
    /// True with probability p/q; false is the simple side.
    pub fn chance(&mut self, p: u64, q: u64) -> bool { self.below(q) >= q - p }
    pub fn bool(&mut self) -> bool { self.below(2) == 1 }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.us(xs.len())] }
    /// Weighted index; put the simplest alternative first.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let tot: u64 = ws.iter().map(|&w| w as u64).sum();
        let mut k = self.below(tot);
        for (i, &w) in ws.iter().enumerate() {
            if k < w as u64 { return i; }
            k -= w as u64;
        }
        ws.len() - 1
    }
    /// Geometric-ish length in 0..=max.
    pub fn len(&mut self, max: usize) -> usize {
        let m = match self.below(4) { 0 => max.min(2), 1 | 2 => (max + 1) / 2, _ => max };
        self.us(m + 1)
    }
}

/// What one case said.
#[derive(Clone, Default)]
pub struct Outcome {
    /// `Some` is a violation.
    pub violation: Option<String>,
    /// Case was outside the property's domain.
    pub discard: bool,
    pub nontrivial: bool,
    /// Identity of the case, for counting distinct ones.
    pub key: u64,
    pub desc: String,
    pub labels: Vec<&'static str>,
}
impl Outcome {
    pub fn of(desc: String) -> Outcome {
        Outcome { key: hash_str(&desc), desc, ..Default::default() }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) { self.labels.push(l) }
    }
    pub fn fail<S: Into<String>>(&mut self, m: S) {
        if self.violation.is_none() { self.violation = Some(m.into()) }
    }
}

/// The last panic of a thread that the code under test started.
static OTHER: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
    static GUARD: Cell<u32> = Cell::new(0);
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "panic".into() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let guarded = GUARD.with(|g| g.get()) > 0;
        if !guarded && std::thread::current().name().map(|n| n.starts_with("case")).unwrap_or(false) {
            eprintln!("HARNESS PANIC {} at {}", msg, loc);
        }
        if std::thread::current().name().is_none() { *OTHER.lock().unwrap() = format!("{} at {}", msg, loc); }
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// Runs code under test; a panic becomes `Err(message)`.
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    GUARD.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARD.with(|g| g.set(g.get() - 1));
    r.map_err(|_| PANIC_MSG.with(|p| { let m = p.borrow().clone(); if m.contains("Any {") { format!("{} (thread: {})", m, OTHER.lock().unwrap()) } else { m } }))
}

pub type CaseFn = fn(&mut Src, &Cfg) -> Outcome;

#[derive(Clone)]
pub struct Cfg {
    pub thorough: bool,
    pub scratch: std::path::PathBuf,
}

/// Shrinks a failing choice sequence.
pub fn shrink(case: CaseFn, cfg: &Cfg, choices: Vec<u64>, budget: usize, deadline: std::time::Instant) -> (Vec<u64>, Outcome) {
    let run = |c: &[u64]| -> Option<(Vec<u64>, Outcome)> {
        let mut s = Src::replay(c);
        let o = catch_unwind(AssertUnwindSafe(|| case(&mut s, cfg))).ok()?;
        if o.violation.is_some() { 
            let mut r = s.rec;
            while r.last() == Some(&0) { r.pop(); }
            Some((r, o)) } else { None }
    };
    let (mut best, mut out) = match run(&choices) { Some(x) => x, None => return (choices, Outcome { violation: Some("not reproduced on replay".into()), ..Default::default() }) };
    let mut tries = 0usize;
    let better = |a: &[u64], b: &[u64]| (a.len(), a) < (b.len(), b);
    loop {
        let mut improved = false;
        // Delete chunks.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() {
                if tries > budget || std::time::Instant::now() > deadline { return (best, out); }
                tries += 1;
                let mut c = best.clone();
                c.drain(i..i + size);
                if let Some((r, o)) = run(&c) {
                    if better(&r, &best) { best = r; out = o; improved = true; continue; }
                }
                i += size.max(1);
            }
            if size == 1 { break; }
            size /= 2;
        }
        // Zero chunks, then lower values.
        let mut size = 8usize;
        loop {
            let mut i = 0;
            while i < best.len() {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|&x| x != 0) {
                    if tries > budget || std::time::Instant::now() > deadline { return (best, out); }
                    tries += 1;
                    let mut c = best.clone();
                    for x in &mut c[i..hi] { *x = 0; }
                    if let Some((r, o)) = run(&c) {
                        if better(&r, &best) { best = r; out = o; improved = true; }
                    }
                }
                i += size;
            }
            if size == 1 { break; }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && lo < best[i] {
                if tries > budget || std::time::Instant::now() > deadline { return (best, out); }
                tries += 1;
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                match run(&c) {
                    Some((r, o)) if better(&r, &best) => { best = r; out = o; improved = true; }
                    _ => { lo = mid + 1; }
                }
            }
            i += 1;
        }
        if !improved { return (best, out); }
    }
}

pub fn jstr(s: &str) -> String {
    let mut r = String::with_capacity(s.len() + 2);
    r.push('"');
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub discards: u64,
    pub labels: BTreeMap<String, u64>,
    pub keys: std::collections::HashSet<u64>,
    pub samples: Vec<String>,
}
