//! Coverage-guided search over the choice sequences of a law (only in builds with the `cov` feature, which
//! are compiled with sanitizer coverage and linked with cov/hooks.o).

use std::sync::atomic::{AtomicBool, AtomicU64, AtomicU8, Ordering};
use std::sync::{Mutex, RwLock};
use std::time::{Duration, Instant};

use crate::engine::*;

extern "C" {
    fn cov_guards() -> u32;
    fn cov_enter(hits: *mut u8, touched: *mut u32, dist: *mut u8, sites: *mut u32);
    fn cov_leave(touched: *mut u32, sites: *mut u32);
}

const SITES: usize = 1 << 16;
/// Longest sequence kept
const LONG: usize = 20_000;
/// Most choices kept in all
const ROOM: u64 = 50_000_000;

/// Laws this search does nothing for: their cases are processes or races of threads.
pub const UNFIT: &[&str] = &["threads", "captures"];

/// What each thread is running: the given choices and the seed of those after them.
static AT_WORK: RwLock<Vec<Mutex<(Vec<u64>, u64)>>> = RwLock::new(Vec::new());

pub fn at_work(slot: usize) -> (Vec<u64>, u64) {
    AT_WORK.read().unwrap()[slot].lock().unwrap().clone()
}

pub struct FuzzReport {
    pub cases: u64,
    pub nontrivial: u64,
    pub corpus: usize,
    pub edges: u64,
    pub features: u64,
    pub samples: Vec<String>,
    pub failure: Option<Failure>,
    pub wall: f64,
}

struct Seen {
    /// per edge: bit per order of magnitude of its hit count
    edges: Vec<AtomicU8>,
    /// per comparison: fewest differing bits
    cmps: Vec<AtomicU8>,
}

struct Local {
    hits: Vec<u8>,
    touched: Vec<u32>,
    dist: Vec<u8>,
    sites: Vec<u32>,
}
impl Local {
    fn new(n: usize) -> Self {
        Local { hits: vec![0; n + 1], touched: vec![0; n + 1], dist: vec![0; SITES], sites: vec![0; SITES] }
    }
    /// Run a case; the number of things in it never seen before.
    fn run(&mut self, law: &Law, src: &mut Src, ctx: &mut Ctx, seen: &Seen) -> (Outcome, u64, u64) {
        let (mut nt, mut ns) = (0u32, 0u32);
        // SAFETY: the buffers outlive the case and are long enough for all guards and sites
        unsafe {
            cov_enter(
                self.hits.as_mut_ptr(),
                self.touched.as_mut_ptr(),
                self.dist.as_mut_ptr(),
                self.sites.as_mut_ptr(),
            )
        };
        let r = run_case(law, src, ctx);
        unsafe { cov_leave(&mut nt, &mut ns) };
        let (mut new_edges, mut new) = (0, 0);
        for i in &self.touched[..nt as usize] {
            let i = *i as usize;
            let bucket = match self.hits[i] {
                0..=3 => self.hits[i] - 1,
                4..=7 => 3,
                8..=15 => 4,
                16..=31 => 5,
                32..=127 => 6,
                _ => 7,
            };
            self.hits[i] = 0;
            let old = seen.edges[i].fetch_or(1 << bucket, Ordering::Relaxed);
            new_edges += u64::from(old == 0);
            new += u64::from(old >> bucket & 1 == 0);
        }
        for s in &self.sites[..ns as usize] {
            let s = *s as usize;
            let old = seen.cmps[s].fetch_min(self.dist[s], Ordering::Relaxed);
            new += u64::from(self.dist[s] < old);
            self.dist[s] = 0;
        }
        (r, new_edges, new)
    }
}

fn mutate(rng: &mut u64, v: &mut Vec<u64>, other: &[u64]) {
    let r = |rng: &mut u64, n: usize| (splitmix(rng) % n.max(1) as u64) as usize;
    let rounds = 1 + r(rng, 4);
    for _ in 0..rounds {
        let len = v.len();
        match r(rng, 12) {
            0..=3 if len > 0 => {
                let i = r(rng, len);
                v[i] = splitmix(rng);
            }
            4 if len > 0 => {
                let i = r(rng, len);
                v[i] = v[i].wrapping_add(splitmix(rng) % 9).wrapping_sub(4);
            }
            5 if len > 0 => {
                let i = r(rng, len);
                v[i] ^= 1 << r(rng, 33);
            }
            6 if len > 0 => {
                let i = r(rng, len);
                v[i] = splitmix(rng) % 4;
            }
            7 if len > 0 => {
                let i = r(rng, len);
                let n = (1 + r(rng, 8)).min(len - i);
                v.drain(i..i + n);
            }
            8 if len > 0 => {
                let i = r(rng, len);
                let n = (1 + r(rng, 32)).min(len - i);
                let part: Vec<u64> = v[i..i + n].to_vec();
                let at = r(rng, len + 1);
                v.splice(at..at, part);
            }
            9 => {
                let at = r(rng, len + 1);
                let n = 1 + r(rng, 4);
                let part: Vec<u64> = (0..n).map(|_| splitmix(rng)).collect();
                v.splice(at..at, part);
            }
            10 if !other.is_empty() => {
                let i = r(rng, other.len());
                let n = (1 + r(rng, 64)).min(other.len() - i);
                let at = r(rng, len + 1);
                if splitmix(rng) & 1 == 0 {
                    v.splice(at..at, other[i..i + n].iter().copied());
                } else {
                    let e = (at + n).min(len);
                    v.splice(at..e, other[i..i + n].iter().copied());
                }
            }
            11 => v.truncate(r(rng, len + 1)),
            _ => {}
        }
    }
    v.truncate(LONG);
}

pub fn fuzz_law(law: &Law, seed: u64, threads: usize, time: Duration) -> FuzzReport {
    let t0 = Instant::now();
    let n = unsafe { cov_guards() } as usize;
    let seen = Seen {
        edges: (0..=n).map(|_| AtomicU8::new(0)).collect(),
        cmps: (0..SITES).map(|_| AtomicU8::new(255)).collect(),
    };
    // sequences, and the indices of those that reached an edge first
    let corpus: RwLock<(Vec<Vec<u64>>, Vec<usize>)> = RwLock::new((vec![], vec![]));
    let stop = AtomicBool::new(false);
    let (cases, nontrivial, edges, features) =
        (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let room = AtomicU64::new(0);
    let fails: Mutex<Vec<(Vec<u64>, String)>> = Mutex::new(vec![]);
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    *AT_WORK.write().unwrap() = (0..threads).map(|_| Mutex::new((vec![], 0))).collect();
    std::thread::scope(|sc| {
        for slot in 0..threads {
            let (seen, corpus, room, stop, cases, nontrivial, edges, features, fails, samples) =
                (&seen, &corpus, &room, &stop, &cases, &nontrivial, &edges, &features, &fails, &samples);
            sc.spawn(move || {
                let mut loc = Local::new(n);
                let mut rng = seed ^ fnv(law.name.as_bytes()).rotate_left(9) ^ (slot as u64) << 40;
                while !stop.load(Ordering::Relaxed) {
                    if t0.elapsed() > time {
                        break;
                    }
                    let start = {
                        let c = corpus.read().unwrap();
                        let x = splitmix(&mut rng);
                        if c.0.len() < 8 || x % 16 == 0 {
                            vec![]
                        } else {
                            let pick = |rng: &mut u64| {
                                let y = splitmix(rng);
                                // those that reached an edge first, the newest, or any
                                let l = c.0.len() as u64;
                                let f = c.1.len() as u64;
                                match y & 3 {
                                    0 if f > 0 => c.1[(f - 1 - (y >> 8) % (f / 8 + 1)) as usize],
                                    1 if f > 0 => c.1[((y >> 8) % f) as usize],
                                    2 => (l - 1 - (y >> 8) % (l / 20 + 1)) as usize,
                                    _ => ((y >> 8) % l) as usize,
                                }
                            };
                            let mut v = c.0[pick(&mut rng)].clone();
                            let o = &c.0[pick(&mut rng)];
                            mutate(&mut rng, &mut v, o);
                            v
                        }
                    };
                    let tail = splitmix(&mut rng);
                    *AT_WORK.read().unwrap()[slot].lock().unwrap() = (start.clone(), tail);
                    in_flight(slot, Some(law));
                    let mut src = Src::mutant(start, tail);
                    let mut ctx = Ctx::default();
                    let (r, ne, new) = loc.run(law, &mut src, &mut ctx, seen);
                    cases.fetch_add(1, Ordering::Relaxed);
                    nontrivial.fetch_add(u64::from(ctx.nontrivial), Ordering::Relaxed);
                    if let Err(m) = r {
                        stop.store(true, Ordering::Relaxed);
                        fails.lock().unwrap().push((src.rec, m));
                        break;
                    }
                    if new > 0 {
                        edges.fetch_add(ne, Ordering::Relaxed);
                        features.fetch_add(new, Ordering::Relaxed);
                        let room = room.fetch_add(src.rec.len() as u64, Ordering::Relaxed) < ROOM;
                        if src.rec.len() <= LONG && room {
                            let mut c = corpus.write().unwrap();
                            if c.0.len().is_power_of_two() && c.0.len() >= 64 {
                                let s = run_choices(law, &src.rec).1;
                                samples.lock().unwrap().push(s);
                            }
                            if ne > 0 {
                                let at = c.0.len();
                                c.1.push(at);
                            }
                            c.0.push(src.rec);
                        }
                    }
                }
                in_flight(slot, None);
            });
        }
    });
    let mut f = fails.into_inner().unwrap();
    f.sort();
    let failure = f.into_iter().next().map(|(rec, m)| {
        in_flight(0, Some(law));
        let (shrunk, message, sample) = shrink(law, rec.clone(), m);
        in_flight(0, None);
        Failure { index: 0, original: rec, shrunk, message, sample }
    });
    let mut samples = samples.into_inner().unwrap();
    samples.truncate(3);
    FuzzReport {
        cases: cases.into_inner(),
        nontrivial: nontrivial.into_inner(),
        corpus: corpus.into_inner().unwrap().0.len(),
        edges: edges.into_inner(),
        features: features.into_inner(),
        samples,
        failure,
        wall: t0.elapsed().as_secs_f64(),
    }
}
