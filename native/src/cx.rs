use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Fills memory that nobody has written with a pattern, so that what reads it does the same in every run.
pub struct Poison;
unsafe impl std::alloc::GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { let p = std::alloc::System.alloc(l); if !p.is_null() { std::ptr::write_bytes(p, 0xA5, l.size()); } p }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { std::alloc::System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::ptr::write_bytes(p, 0x5A, l.size()); std::alloc::System.dealloc(p, l) }
}

static HINTS: std::sync::OnceLock<(Vec<usize>, Vec<usize>)> = std::sync::OnceLock::new();
/// sizes worth a look: numbers that occur in the source under test and did not before
pub fn hints() -> &'static [usize] { HINTS.get().map_or(&[], |v| &v.0) }
/// the same as counts and values, however large
pub fn value_hints() -> &'static [usize] { HINTS.get().map_or(&[], |v| &v.1) }
pub fn set_hints(s: &str) {
    let (mut v, mut w, mut far) = (vec![], vec![], 0);
    for h in s.split(',').filter_map(|x| x.parse::<usize>().ok()) { for x in [h.saturating_sub(1), h, h.saturating_add(1)] {
        if !w.contains(&x) { w.push(x) }
        if x > 2 && x <= 70_000 && !v.contains(&x) && (x < 3000 && v.len() < 40 || far < 9) { v.push(x); if x >= 3000 { far += 1 } }
    } }
    let _ = HINTS.set((v, w));
}

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}

pub struct Failure { pub case: u64, pub what: String, pub input: String, pub expected: String, pub observed: String }

pub struct Cx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub rng: Rng,
    pub evals: u64,
    only: Option<u64>,
    trace: Option<String>,
    seen: HashSet<u64>,
    samples: Vec<String>,
    pub fail: Option<Failure>,
    pub known: Vec<String>,
    pub rule: String,
    pub exhaustive: Vec<String>,
}

impl Cx {
    pub fn new(prop: &str, tier: &str, seed: u64, only: Option<u64>, trace: Option<String>) -> Self {
        Cx { prop: prop.into(), thorough: tier == "thorough", seed, rng: Rng::new(seed), evals: 0, only, trace, seen: HashSet::new(), samples: vec![], fail: None, known: vec![], rule: String::new(), exhaustive: vec![] }
    }
    pub fn done(&self) -> bool { self.fail.is_some() }
    /// One case: `input` describes it, `f` runs the real code and compares; Err((what, expected, observed)) is a failure.
    pub fn case(&mut self, nontrivial: bool, input: &dyn Fn() -> String, f: &mut dyn FnMut() -> Result<(), (String, String, String)>) {
        if self.fail.is_some() { return; }
        let k = self.evals;
        self.evals += 1;
        if let Some(o) = self.only { if o != k { return; } }
        if let Some(t) = &self.trace { let _ = std::fs::write(t, format!("case {} {}\n", k, input())); }
        if nontrivial && (self.seen.len() as u64) < 4_000_000 {
            let mut h = DefaultHasher::new();
            input().hash(&mut h);
            if self.seen.insert(h.finish()) && (self.samples.len() < 3 || (self.seen.len() % 9973 == 0 && self.samples.len() < 6)) { self.samples.push(input()); }
        }
        let r = match catch_unwind(AssertUnwindSafe(|| f())) {
            Ok(r) => r,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Err(("panic".into(), "no panic".into(), format!("panic: {}", m)))
            }
        };
        if let Err((what, expected, observed)) = r {
            self.fail = Some(Failure { case: k, what, input: input(), expected, observed });
        }
    }
    pub fn note_known(&mut self, s: String) { if self.known.len() < 20 && !self.known.contains(&s) { self.known.push(s); } }
    pub fn finish(&self) {
        let f = match &self.fail {
            None => "null".to_string(),
            Some(f) => format!("{{\"case\": {}, \"what\": {}, \"input\": {}, \"expected\": {}, \"observed\": {}}}", f.case, js(&f.what), js(&f.input), js(&f.expected), js(&f.observed)),
        };
        println!("{{\"property\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"known\": [{}], \"exhaustive\": [{}], \"failure\": {}}}",
            js(&self.prop), self.evals, self.seen.len(), js(&self.rule), self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
            self.known.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "), self.exhaustive.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "), f);
    }
}

pub type R = Result<(), (String, String, String)>;
pub fn eq<A: std::fmt::Debug + PartialEq>(what: &str, expected: A, observed: A) -> R {
    if expected == observed { Ok(()) } else { Err((what.into(), format!("{:?}", expected), format!("{:?}", observed))) }
}
pub fn catch(f: impl FnOnce()) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }
pub fn panics(f: impl FnOnce()) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }

/// an iterator whose (correct) size hint is as loose as `how` says
pub struct Loose<I>(pub I, pub usize);
impl<I: Iterator> Iterator for Loose<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (l, u) = self.0.size_hint();
        match self.1 % 8 {
            0 => (l, u), 1 => (0, u), 2 => (l, None), 3 => (0, None), 4 => (l.min(1), u.map(|x| x.saturating_add(1))),
            5 => (l / 2, u.map(|x| x.saturating_mul(3).saturating_add(17))), 6 => (0, Some(usize::MAX)), _ => (l.saturating_sub(1), u.map(|x| x.saturating_add(300))),
        }
    }
}
pub const LOOSE: usize = 8;

pub const WALKS: usize = 20;
/// What a caller sees who uses the iterator in the way `form` says, `k` being a number of steps.
pub fn walk<I: Iterator>(form: usize, k: usize, mut it: I, id: &dyn Fn(&I::Item) -> u32) -> Vec<i64> {
    let mut t: Vec<i64> = vec![];
    let o = |x: Option<I::Item>| x.map_or(-1, |x| id(&x) as i64);
    match form {
        0 => { t.push(o(it.nth(k))); t.push(o(it.next())); t.push(o(it.nth(k))); }
        1 => { t.push(o(it.nth(0))); t.push(o(it.nth(k))); t.push(o(it.nth(0))); }
        2 => { for _ in 0..k { t.push(o(it.next())); } t.push(o(it.nth(1))); }
        3 => { t.extend(it.by_ref().skip(k).take(2).map(|x| id(&x) as i64)); }
        4 => { t.extend(it.by_ref().step_by(k + 1).map(|x| id(&x) as i64)); }
        5 => { t.extend(it.by_ref().take(k).map(|x| id(&x) as i64)); }
        6 => { for _ in 0..k { t.push(o(it.next())); } t.push(it.count() as i64); return t; }
        7 => { for _ in 0..k { t.push(o(it.next())); } t.push(o(it.last())); return t; }
        8 => { for _ in 0..k { t.push(o(it.next())); } it.for_each(|x| t.push(id(&x) as i64)); return t; }
        9 => { for _ in 0..k { t.push(o(it.next())); } return it.fold(t, |mut t, x| { t.push(id(&x) as i64); t }); }
        10 => { let mut n = 0; t.push(it.by_ref().all(|x| { n += 1; id(&x) < u32::MAX && n <= k }) as i64); }
        11 => { let mut n = 0; t.push(it.by_ref().any(|_| { n += 1; n > k }) as i64); }
        12 => { let mut n = 0; t.push(o(it.by_ref().find(|_| { n += 1; n > k }))); }
        13 => { let mut n = 0; t.push(it.by_ref().position(|_| { n += 1; n > k }).map_or(-1, |x| x as i64)); }
        14 => { let mut n = 0; t.push(it.by_ref().try_fold(0i64, |a, x| { n += 1; if n > k { Err(a) } else { Ok((a * 3 + id(&x) as i64 % 1000) % 1_000_003) } }).unwrap_or_else(|a| -a)); }
        15 => { let (a, b): (Vec<I::Item>, Vec<I::Item>) = it.by_ref().partition(|x| id(x) as usize % (k + 2) == 0); for x in a.iter().chain(b.iter()) { t.push(id(x) as i64) } }
        16 => { t.push(o(it.by_ref().max_by_key(|x| id(x) % (k as u32 + 2)))); t.push(o(it.by_ref().reduce(|a, _| a))); }
        17 => { let mut p = it.by_ref().peekable(); for _ in 0..k { t.push(p.peek().map_or(-1, |x| id(x) as i64)); t.push(o(p.next())); } let (l, h) = p.size_hint(); let n = p.count(); t.push((l <= n && h.map_or(true, |h| h >= n)) as i64); return t; }
        18 => { for _ in 0..k { t.push(o(it.next())); } let (l, h) = it.size_hint(); let r: Vec<I::Item> = it.collect(); t.push((l <= r.len() && h.map_or(true, |h| h >= r.len())) as i64); t.extend(r.iter().map(|x| id(x) as i64)); return t; }
        _ => { t.extend(it.by_ref().skip_while(|x| (id(x) as usize) < k).map(|x| id(&x) as i64)); }
    }
    for _ in 0..3 { t.push(o(it.next())); }
    t
}
