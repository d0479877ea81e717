//! A small property-based testing engine: choice sequences, parallel deterministic runs, shrinking.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// Numbers at which the code under test may behave differently, however unlikely a random draw is to
/// hit them: the integer literals in its source, and (second list) sums, products and shifts of two
/// literals on a line. Both sorted.
pub fn dictionary() -> &'static [Vec<u64>; 2] {
    static D: std::sync::OnceLock<[Vec<u64>; 2]> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = [vec![], vec![]];
        let mut dirs = vec![std::path::PathBuf::from(std::env::var("IRPBT_SRC").unwrap_or_else(|_| "/repo/src".into()))];
        let mut files = vec![];
        while let Some(d) = dirs.pop() {
            for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
                let p = e.path();
                if p.is_dir() {
                    dirs.push(p);
                } else if p.extension().is_some_and(|x| x == "rs") {
                    files.push(p);
                }
            }
        }
        for f in files {
            for line in std::fs::read_to_string(f).unwrap_or_default().lines() {
                let mut v = vec![];
                literals(line, &mut v);
                v.truncate(8);
                for (i, a) in v.iter().enumerate() {
                    for (j, b) in v.iter().enumerate() {
                        if i != j {
                            d[1].extend([a.wrapping_add(*b), a.wrapping_mul(*b)]);
                            if *b < 64 {
                                d[1].push(a << b);
                            }
                        }
                    }
                }
                d[0].extend(v.into_iter().filter(|x| *x > 2));
            }
        }
        for v in &mut d {
            v.retain(|x| *x > 2);
            v.sort_unstable();
            v.dedup();
        }
        d
    })
}

fn literals(text: &str, out: &mut Vec<u64>) {
    for word in text.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')) {
        if !word.starts_with(|c: char| c.is_ascii_digit()) {
            continue;
        }
        let w: String = word.chars().filter(|c| *c != '_').collect();
        let (radix, digits) = match w.get(..2) {
            Some("0x") => (16, &w[2..]),
            Some("0b") => (2, &w[2..]),
            Some("0o") => (8, &w[2..]),
            _ => (10, &w[..]),
        };
        let end = digits.find(|c: char| !c.is_digit(radix)).unwrap_or(digits.len());
        if let Ok(v) = u64::from_str_radix(&digits[..end], radix) {
            out.push(v);
        }
    }
}

/// A dictionary value (or a neighbour of one) in lo..lo + n, less lo.
fn from_dictionary(x: u64, n: u64, lo: u64) -> Option<u64> {
    let d = &dictionary()[(x >> 6 & 3 == 0) as usize];
    let a = d.partition_point(|v| *v < lo);
    let b = d.partition_point(|v| *v < lo.saturating_add(n));
    if a == b {
        return None;
    }
    let v = d[a + ((x >> 8) & 0xffff) as usize % (b - a)] - lo;
    Some(match x & 15 {
        0 if v + 1 < n => v + 1,
        1 if v > 0 => v - 1,
        _ => v,
    })
}

enum Mode {
    Random(u64),
    Replay(Vec<u64>),
    /// given choices, random ones after them
    Mutant(Vec<u64>, u64),
}

/// The source of every choice a case makes.
pub struct Src {
    mode: Mode,
    forced: Vec<u64>,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64, forced: Vec<u64>) -> Self {
        Src { mode: Mode::Random(seed), forced, rec: Vec::with_capacity(64) }
    }
    pub fn replay(v: Vec<u64>) -> Self {
        Src { mode: Mode::Replay(v), forced: Vec::new(), rec: Vec::new() }
    }
    pub fn mutant(v: Vec<u64>, seed: u64) -> Self {
        Src { mode: Mode::Mutant(v, seed), forced: Vec::new(), rec: Vec::with_capacity(64) }
    }
    fn random_draw(st: &mut u64, n: u64, lo: u64) -> u64 {
        let x = splitmix(st);
        if n >= 100 && x >> 60 == 0 {
            from_dictionary(x, n, lo).unwrap_or(x)
        } else {
            x
        }
    }
    /// A number below n (0 when n is 0 or 1). Smaller numbers are simpler.
    pub fn below(&mut self, n: u64) -> u64 {
        self.draw(n, 0)
    }
    /// The same for a number that is then added to lo. One in sixteen of the wide draws is a number
    /// that occurs in the source of the code under test (see `dictionary`), or next to one.
    fn draw(&mut self, n: u64, lo: u64) -> u64 {
        let n = n.max(1);
        let pos = self.rec.len();
        let raw = if pos < self.forced.len() {
            self.forced[pos]
        } else {
            match &mut self.mode {
                Mode::Random(st) => Self::random_draw(st, n, lo),
                Mode::Replay(v) => v.get(pos).copied().unwrap_or(0),
                Mode::Mutant(v, st) => match v.get(pos) {
                    Some(x) => *x,
                    None => Self::random_draw(st, n, lo),
                },
            }
        };
        let v = raw % n;
        self.rec.push(v);
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        lo + self.draw((hi - lo).wrapping_add(1), lo)
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo) as u64 + 1) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability a in b.
    pub fn chance(&mut self, a: u64, b: u64) -> bool {
        // the simple answer (0) is "no"
        self.below(b) >= b - a
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
    /// Index drawn by weight.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total);
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        w.len() - 1
    }
    /// Uniform over n bits, with special patterns mixed in.
    pub fn bits(&mut self, n: u32) -> u64 {
        let mask = if n >= 64 { u64::MAX } else { (1u64 << n) - 1 };
        match self.below(8) {
            0 => *self.pick(&[0, u64::MAX, 0x5555_5555_5555_5555, 0xAAAA_AAAA_AAAA_AAAA]) & mask,
            1 => (1u64 << self.below(n as u64)) & mask,
            2 => !(1u64 << self.below(n as u64)) & mask,
            3 => self.below(256) & mask,
            4 => {
                // runs
                let a = self.below(n as u64 + 1);
                let b = self.below(n as u64 + 1);
                let (lo, hi) = (a.min(b), a.max(b));
                let m = if hi >= 64 { u64::MAX } else { (1u64 << hi) - 1 };
                (m & !(if lo >= 64 { u64::MAX } else { (1u64 << lo) - 1 })) & mask
            }
            _ => self.below(u64::MAX) & mask,
        }
    }
    /// Log-uniform in 1..=max, with 0 excluded.
    pub fn log(&mut self, max: u64) -> u64 {
        let top = 64 - max.leading_zeros() as u64;
        let b = self.range(1, top.max(1));
        let hi = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
        let lo = 1u64 << (b - 1);
        self.range(lo.min(max), hi.min(max))
    }
}

#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub want_sample: bool,
    pub sample: Option<String>,
    /// Inner evaluations beyond the case itself (exhaustive inner loops)
    pub inner: u64,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
}

pub type Outcome = Result<(), String>;

#[derive(Clone, Copy)]
pub enum Kind {
    /// Random cases: (quick, thorough)
    Random(u64, u64),
    /// The first draw takes each value 0..n in turn: (n, repetitions quick, repetitions thorough)
    Exhaustive(u64, u64, u64),
    /// The first draw takes each value 0..2^n once (thorough), or the given number of them,
    /// depending on the seed (quick)
    Sweep(u32, u64),
}

#[derive(Clone, Copy)]
pub struct Law {
    pub prop: &'static str,
    pub name: &'static str,
    pub kind: Kind,
    pub rule: &'static str,
    pub run: fn(&mut Src, &mut Ctx) -> Outcome,
}

pub struct LawReport {
    pub name: &'static str,
    pub rule: &'static str,
    pub evaluations: u64,
    pub inner: u64,
    pub nontrivial: u64,
    pub distinct: u64,
    pub exhaustive: bool,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub failure: Option<Failure>,
    pub wall: f64,
}

pub struct Failure {
    pub index: u64,
    pub original: Vec<u64>,
    pub shrunk: Vec<u64>,
    pub message: String,
    pub sample: String,
}

thread_local! {
    static PANIC_INFO: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        PANIC_INFO.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Run one case. A panic located in the harness itself is not a verdict: it ends the process.
pub fn run_case(law: &Law, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let r = catch_unwind(AssertUnwindSafe(|| (law.run)(src, ctx)));
    match r {
        Ok(o) => o,
        Err(_) => {
            let (loc, msg) = PANIC_INFO.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let harness = loc.starts_with("src/") || loc.contains("/harness/src/");
            if harness {
                eprintln!("HARNESS ERROR in {}/{}: {} at {} case {:?}", law.prop, law.name, msg, loc, src.rec);
                std::process::exit(3);
            }
            Err(format!("panicked at {}: {}", loc, msg))
        }
    }
}

fn case_seed(seed: u64, law: &Law, index: u64) -> u64 {
    let mut x = seed ^ fnv(law.prop.as_bytes()).rotate_left(17) ^ fnv(law.name.as_bytes());
    let a = splitmix(&mut x);
    let mut y = a ^ index.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut y)
}

fn build_src(law: &Law, seed: u64, index: u64) -> Src {
    let forced = match law.kind {
        Kind::Random(..) => vec![],
        Kind::Exhaustive(n, ..) => vec![index % n],
        Kind::Sweep(n, _) => {
            let mut x = seed;
            vec![index.wrapping_mul(0x9E37_79B1).wrapping_add(splitmix(&mut x)) & ((1 << n) - 1)]
        }
    };
    Src::random(case_seed(seed, law, index), forced)
}

pub struct RunCfg {
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub scale: f64,
    /// after this much time random laws stop at an eighth of their cases
    pub until: Option<Instant>,
}

/// Cases in flight: (law, index, start as counted by the watchdog).
static FLIGHT: Mutex<Vec<Option<(Law, u64, u64)>>> = Mutex::new(Vec::new());

/// Time as the watchdog sees it: it stands still while the process is suspended.
static CLOCK: AtomicU64 = AtomicU64::new(0);
fn clock() -> u64 {
    CLOCK.load(Ordering::Relaxed)
}

pub const HANG: Duration = Duration::from_secs(300);

/// A case that does not come back is a violation of its property (the code under test does not
/// terminate): `on_hang` reports it and ends the process.
pub fn start_watchdog(on_hang: fn(&Law, u64, usize)) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(2));
        let now = CLOCK.fetch_add(2, Ordering::Relaxed) + 2;
        let hung = FLIGHT
            .lock()
            .unwrap()
            .iter()
            .enumerate()
            .find_map(|(slot, x)| x.filter(|x| now - x.2 > HANG.as_secs()).map(|x| (x.0, x.1, slot)));
        if let Some((law, i, slot)) = hung {
            on_hang(&law, i, slot);
            std::process::exit(4);
        }
    });
}

fn flight(slot: usize, v: Option<(Law, u64, u64)>) {
    let mut f = FLIGHT.lock().unwrap();
    if f.len() <= slot {
        f.resize(slot + 1, None);
    }
    f[slot] = v;
}

/// A case of the coverage-guided search begins or the search ends.
#[cfg(feature = "cov")]
pub fn in_flight(slot: usize, law: Option<&Law>) {
    flight(slot, law.map(|l| (*l, u64::MAX, clock())));
}

pub fn run_index(law: &Law, seed: u64, index: u64) -> (Outcome, Vec<u64>, String) {
    let mut src = build_src(law, seed, index);
    let mut ctx = Ctx { want_sample: true, ..Default::default() };
    let r = run_case(law, &mut src, &mut ctx);
    (r, src.rec, ctx.sample.unwrap_or_default())
}

pub fn run_choices(law: &Law, v: &[u64]) -> (Outcome, String) {
    run_from(law, Src::replay(v.to_vec()))
}

pub fn run_mutant(law: &Law, v: &[u64], seed: u64) -> (Outcome, String) {
    run_from(law, Src::mutant(v.to_vec(), seed))
}

fn run_from(law: &Law, mut src: Src) -> (Outcome, String) {
    let mut ctx = Ctx { want_sample: true, ..Default::default() };
    let r = run_case(law, &mut src, &mut ctx);
    (r, ctx.sample.unwrap_or_default())
}

pub fn run_law(law: &Law, cfg: &RunCfg) -> LawReport {
    let t0 = Instant::now();
    let (total, exhaustive) = match law.kind {
        Kind::Random(q, t) => {
            let n = if cfg.thorough { t } else { q };
            (((n as f64 * cfg.scale) as u64).max(1), false)
        }
        Kind::Exhaustive(n, q, t) => (n * if cfg.thorough { t } else { q }, true),
        Kind::Sweep(n, q) => (if cfg.thorough { 1 << n } else { q }, cfg.thorough),
    };
    let next = Arc::new(AtomicU64::new(0));
    let minfail = Arc::new(AtomicU64::new(u64::MAX));
    let chunk = (total / (cfg.threads as u64 * 64)).clamp(1, 4096);
    let fails: Arc<Mutex<Vec<(u64, Vec<u64>, String)>>> = Arc::new(Mutex::new(vec![]));

    struct Part {
        evals: u64,
        inner: u64,
        nontrivial: u64,
        hashes: Vec<u64>,
        labels: BTreeMap<&'static str, u64>,
        samples: Vec<(u64, String)>,
    }
    let sample_at: Vec<u64> = (0..4).map(|i| i * total / 4).collect();

    let parts: Vec<Part> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..cfg.threads)
            .map(|slot| {
                let next = next.clone();
                let minfail = minfail.clone();
                let fails = fails.clone();
                let sample_at = sample_at.clone();
                sc.spawn(move || {
                    let mut p = Part {
                        evals: 0,
                        inner: 0,
                        nontrivial: 0,
                        hashes: vec![],
                        labels: BTreeMap::new(),
                        samples: vec![],
                    };
                    loop {
                        let start = next.fetch_add(chunk, Ordering::Relaxed);
                        if start >= total || start > minfail.load(Ordering::Relaxed) {
                            break;
                        }
                        if !exhaustive && start >= total / 8 && cfg.until.is_some_and(|t| Instant::now() > t) {
                            break;
                        }
                        for i in start..(start + chunk).min(total) {
                            if p.evals % 64 == 0 || chunk < 64 {
                                flight(slot, Some((*law, i, clock())));
                            }
                            if i > minfail.load(Ordering::Relaxed) {
                                break;
                            }
                            let mut src = build_src(law, cfg.seed, i);
                            let mut ctx = Ctx { want_sample: sample_at.contains(&i), ..Default::default() };
                            let r = run_case(law, &mut src, &mut ctx);
                            p.evals += 1;
                            p.inner += ctx.inner;
                            if ctx.nontrivial {
                                p.nontrivial += 1;
                                let mut h = 0xcbf2_9ce4_8422_2325u64;
                                for v in &src.rec {
                                    h = (h ^ *v).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
                                }
                                p.hashes.push(h);
                            }
                            for l in ctx.labels {
                                *p.labels.entry(l).or_insert(0) += 1;
                            }
                            if let Some(s) = ctx.sample {
                                p.samples.push((i, s));
                            }
                            if let Err(m) = r {
                                minfail.fetch_min(i, Ordering::Relaxed);
                                fails.lock().unwrap().push((i, src.rec.clone(), m));
                                break;
                            }
                        }
                    }
                    flight(slot, None);
                    p
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| std::process::exit(3))).collect()
    });

    let mut rep = LawReport {
        name: law.name,
        rule: law.rule,
        evaluations: 0,
        inner: 0,
        nontrivial: 0,
        distinct: 0,
        exhaustive,
        labels: BTreeMap::new(),
        samples: vec![],
        failure: None,
        wall: 0.0,
    };
    let mut hashes = vec![];
    let mut samples = vec![];
    for p in parts {
        rep.evaluations += p.evals;
        rep.inner += p.inner;
        rep.nontrivial += p.nontrivial;
        hashes.extend(p.hashes);
        samples.extend(p.samples);
        for (k, v) in p.labels {
            *rep.labels.entry(k).or_insert(0) += v;
        }
    }
    hashes.sort_unstable();
    hashes.dedup();
    rep.distinct = hashes.len() as u64;
    samples.sort();
    rep.samples = samples.into_iter().map(|(i, s)| format!("case {}: {}", i, s)).collect();

    let mut f = fails.lock().unwrap();
    f.sort_by_key(|x| x.0);
    if let Some((i, rec, m)) = f.first() {
        flight(0, Some((*law, *i, clock())));
        let (shrunk, message, sample) = shrink(law, rec.clone(), m.clone());
        rep.failure = Some(Failure { index: *i, original: rec.clone(), shrunk, message, sample });
    }
    flight(0, None);
    rep.wall = t0.elapsed().as_secs_f64();
    rep
}

fn attempt(law: &Law, v: &[u64]) -> Option<(Vec<u64>, String)> {
    let mut src = Src::replay(v.to_vec());
    let mut ctx = Ctx::default();
    match run_case(law, &mut src, &mut ctx) {
        Ok(()) => None,
        Err(m) => Some((src.rec, m)),
    }
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

pub fn shrink(law: &Law, start: Vec<u64>, msg: String) -> (Vec<u64>, String, String) {
    let mut best = start;
    let mut message = msg;
    let mut budget = 3000i64;
    let t0 = Instant::now();
    let mut progress = true;
    let try_it = |cand: Vec<u64>, best: &mut Vec<u64>, message: &mut String, budget: &mut i64| -> bool {
        if *budget <= 0 || t0.elapsed() > Duration::from_secs(20) {
            *budget = 0;
            return false;
        }
        *budget -= 1;
        if let Some((rec, m)) = attempt(law, &cand) {
            if simpler(&rec, best) {
                *best = rec;
                *message = m;
                return true;
            }
        }
        false
    };
    while progress && budget > 0 {
        progress = false;
        for size in [32usize, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() && budget > 0 {
                let mut c = best.clone();
                c.drain(i..i + size);
                if try_it(c, &mut best, &mut message, &mut budget) {
                    progress = true;
                } else {
                    i += 1;
                }
            }
        }
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i + size <= best.len() && budget > 0 {
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..i + size].fill(0);
                    if try_it(c, &mut best, &mut message, &mut budget) {
                        progress = true;
                    }
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() && budget > 0 {
            let mut lo = 0u64;
            let mut hi = best[i];
            let mut n = 0;
            while lo < hi && n < 40 && budget > 0 && i < best.len() {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if try_it(c, &mut best, &mut message, &mut budget) {
                    progress = true;
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
                n += 1;
            }
            i += 1;
        }
    }
    let mut src = Src::replay(best.clone());
    let mut ctx = Ctx { want_sample: true, ..Default::default() };
    let _ = run_case(law, &mut src, &mut ctx);
    (best, message, ctx.sample.unwrap_or_default())
}

// ---------------------------------------------------------------------------------------------- JSON

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn jarr<T: std::fmt::Display>(v: &[T]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
