//! Generated line histories.

use crate::engine::{Ctx, Src};
use crate::spec::*;

#[derive(Clone, Copy)]
pub struct Cfg {
    /// times may be 0
    pub zero: bool,
    /// largest time
    pub max: u64,
    /// edges may be dropped or doubled
    pub nonalt: bool,
    /// most segments
    pub segs: u64,
    /// cap for single times (0: only `max`); used for polled receivers
    pub cap: u64,
}
impl Cfg {
    pub fn alternating(max: u64) -> Self {
        Cfg { zero: true, max, nonalt: false, segs: 6, cap: 0 }
    }
    pub fn wild(max: u64) -> Self {
        Cfg { zero: true, max, nonalt: true, segs: 6, cap: 0 }
    }
    /// Short enough to be polled tick by tick.
    pub fn polled(f: u32) -> Self {
        Cfg { zero: false, max: u32::MAX as u64, nonalt: false, segs: 4, cap: (f as u64 / 20).max(50) }
    }
}

pub fn fams_for(s: &mut Src, p: P) -> Fam {
    if s.below(3) < 2 {
        p.fam()
    } else {
        *s.pick(&FAMS)
    }
}

/// Any protocol of the family, for its bit patterns.
pub fn proto_of(s: &mut Src, f: Fam) -> P {
    match f {
        Fam::NecStd => *s.pick(&[P::Nec, P::Nec16, P::Apple, P::Debug]),
        Fam::NecSam => P::Samsung,
        Fam::Rc5 => P::Rc5,
        Fam::Rc6 => P::Rc6,
        Fam::Sbp => P::Sbp,
        Fam::Denon => P::Denon,
    }
}

/// A time related to the pulses of the family: class lengths, their halves, window ends.
pub fn class_time(s: &mut Src, w: &Wins) -> u64 {
    let n = classes(w.fam).len() as u64;
    let k = s.below(n) as usize;
    let c = classes(w.fam)[k];
    match s.below(8) {
        0 => to_ticks(c.0, w.f),
        1 => to_ticks(c.1, w.f),
        2 => w.nominal(k),
        3 => {
            let (a, b) = w.w[k].1;
            let at = *s.pick(&[a, b]);
            (at + s.irange(-3, 3)).max(0) as u64
        }
        4 => w.sure(k).0,
        5 => w.sure(k).1,
        6 => to_ticks(c.0 + c.1, w.f) / 2,
        _ => jittered(s, w, k, Jit::Full),
    }
}

/// A time that looks like a pulse once it is squeezed into fewer bits.
pub fn alias(s: &mut Src, f: u32, cfg: &Cfg) -> u64 {
    let ks: &[u32] = if cfg.cap > 0 {
        &[16]
    } else if cfg.max > u32::MAX as u64 {
        &[16, 32, 31, 24, 33, 48, 63, 20]
    } else {
        &[16, 31, 24, 20]
    };
    let k = *s.pick(ks);
    let fam = *s.pick(&FAMS);
    let w = Wins::new(fam, f);
    let t = class_time(s, &w);
    (1u64 << k).saturating_add(t)
}

pub fn junk_time(s: &mut Src, f: u32, cfg: &Cfg) -> u64 {
    let top = (f as u64 / 20).max(100);
    let t = match s.below(6) {
        0 if cfg.zero => 0,
        1 => *s.pick(&[1, 2, 3, u32::MAX as u64, u32::MAX as u64 - 1, 1 << 31, u64::MAX, u64::MAX / 2, i64::MAX as u64]),
        _ => s.log(top),
    };
    let t = t.min(cfg.max);
    let t = if cfg.cap > 0 { t.min(cfg.cap) } else { t };
    if cfg.zero {
        t
    } else {
        t.max(1)
    }
}

pub fn idle(s: &mut Src, f: u32, cfg: &Cfg) -> u64 {
    let base = to_ticks(IDLE_US, f) + 4;
    if s.below(if cfg.cap > 0 { 16 } else { 6 }) == 1 {
        let t = alias(s, f, cfg);
        if t >= base && t <= cfg.max {
            return t;
        }
    }
    let t = match s.below(5) {
        0 => base,
        1 => base + s.below(f as u64 / 50 + 1),
        2 => base + s.log((f as u64).max(2)),
        3 => (1u64 << 31).max(base),
        _ => cfg.max,
    };
    let t = t.clamp(base, cfg.max.max(base));
    if cfg.cap > 0 {
        t.min(base.max(cfg.cap))
    } else {
        t
    }
}

/// Append a segment. The wire may be left high.
pub fn segment(s: &mut Src, p: P, w: &mut Wire, cfg: &Cfg, ctx: &mut Ctx) {
    let kind = s.weighted(&[6, 5, 6, 4, 4, 3, 4, 3, 2, 3, 3, if cfg.nonalt { 6 } else { 0 }]);
    let fam = fams_for(s, p);
    let wins = Wins::new(fam, w.f);
    let q = if fam == p.fam() { p } else { proto_of(s, fam) };
    // get to the low level first
    if w.level && !(cfg.nonalt && s.bool()) {
        let t = junk_time(s, w.f, cfg);
        w.push(t);
    }
    let gap = match s.below(4) {
        0 => junk_time(s, w.f, cfg),
        1 => class_time(s, &wins),
        _ => idle(s, w.f, cfg),
    };
    let fixz = |v: u64| if cfg.zero { v } else { v.max(1) };
    w.edge(true, fixz(gap));
    let start = w.edges.len();
    let jit = if s.bool() { Jit::Full } else { Jit::Nominal };
    match kind {
        // a frame
        0 => {
            ctx.label("seg:frame");
            let bits = any_bits(q, s);
            let (v, _) = frame(s, &wins, bits, jit);
            w.pulses(&v);
        }
        // a truncated frame
        1 => {
            ctx.label("seg:truncated");
            let bits = any_bits(q, s);
            let (v, _) = frame(s, &wins, bits, jit);
            let n = s.below(v.len() as u64 + 1) as usize;
            w.pulses(&v[..n]);
        }
        // one or two pulses changed
        2 => {
            ctx.label("seg:mutated");
            let bits = any_bits(q, s);
            let (mut v, _) = frame(s, &wins, bits, jit);
            for _ in 0..s.range(1, 2) {
                let i = s.below(v.len() as u64) as usize;
                v[i] = match s.below(5) {
                    4 => {
                        let k = *s.pick(&[16u32, 8, 32, 24, 31]);
                        match v[i].checked_add(1 << k) {
                            Some(t) if t <= cfg.max => t,
                            _ => v[i].saturating_add(1 << 8),
                        }
                    }
                    0 => junk_time(s, w.f, cfg),
                    1 => class_time(s, &wins),
                    2 => v[i].saturating_add(s.below(v[i].max(1))),
                    _ => v[i] - s.below(v[i].max(1)),
                };
                v[i] = fixz(v[i]);
            }
            w.pulses(&v);
        }
        // a glitch splits a pulse
        3 => {
            ctx.label("seg:glitch");
            let bits = any_bits(q, s);
            let (v, _) = frame(s, &wins, bits, jit);
            let i = s.below(v.len() as u64) as usize;
            let g = fixz(s.below(v[i].max(1)).min(s.log(200)));
            let a = fixz(s.below(v[i].max(1)));
            let mut o = v[..i].to_vec();
            o.extend([a, g, fixz(v[i].saturating_sub(a + g))]);
            o.extend(&v[i + 1..]);
            w.pulses(&o);
        }
        // pulses missing or repeated in the middle
        4 => {
            ctx.label("seg:cut");
            let bits = any_bits(q, s);
            let (mut v, _) = frame(s, &wins, bits, jit);
            let i = s.below(v.len() as u64) as usize;
            let n = s.range(1, 4) as usize;
            if s.bool() {
                let e = (i + n).min(v.len());
                v.drain(i..e);
            } else {
                let add: Vec<u64> = v[i..(i + n).min(v.len())].to_vec();
                for (k, x) in add.into_iter().enumerate() {
                    v.insert(i + k, x);
                }
            }
            w.pulses(&v);
        }
        // repeat code
        5 => {
            ctx.label("seg:repeat");
            let fam = if p.fam() == Fam::NecSam { Fam::NecSam } else { Fam::NecStd };
            let wins = Wins::new(fam, w.f);
            let (v, _) = repeat_code(s, &wins, jit);
            w.pulses(&v);
        }
        // random walk over class lengths, starting like a frame
        6 => {
            ctx.label("seg:classjunk");
            let bits = any_bits(q, s);
            let (v, _) = frame(s, &wins, bits, Jit::Nominal);
            let keep = if s.bool() { 2usize.min(v.len()) } else { 0 };
            w.pulses(&v[..keep]);
            for _ in 0..s.range(1, 80) {
                let t = class_time(s, &wins).min(cfg.max);
                w.push(fixz(t));
            }
        }
        // noise
        7 => {
            ctx.label("seg:noise");
            for _ in 0..s.range(1, 40) {
                let t = junk_time(s, w.f, cfg);
                w.push(t);
            }
        }
        // regular train
        8 => {
            ctx.label("seg:train");
            let a = fixz(class_time(s, &wins).min(cfg.max));
            let b = fixz(class_time(s, &wins).min(cfg.max));
            for i in 0..s.range(1, 110) {
                w.push(if i % 2 == 0 { a } else { b });
            }
        }
        // bits of a frame without its lead-in
        9 => {
            ctx.label("seg:headless");
            let bits = any_bits(q, s);
            let (v, _) = frame(s, &wins, bits, jit);
            let n = 2 * s.range(1, 3) as usize;
            w.pulses(&v[n.min(v.len())..]);
        }
        // frames run together, or into a repeat code, with or without something in between
        10 => {
            ctx.label("seg:joined");
            let b1 = any_bits(q, s);
            let b2 = any_bits(q, s);
            let (v, _) = frame(s, &wins, b1, jit);
            let n = s.below(v.len() as u64 + 1) as usize;
            w.pulses(&v[..n]);
            let v2 = if (fam == Fam::NecStd || fam == Fam::NecSam) && s.bool() {
                repeat_code(s, &wins, jit).0
            } else {
                frame(s, &wins, b2, jit).0
            };
            if !w.level || s.bool() {
                let t = fixz(class_time(s, &wins).min(cfg.max));
                w.push(t);
            }
            w.pulses(&v2);
        }
        // missed and doubled edges
        _ => {
            ctx.label("seg:nonalternating");
            let bits = any_bits(q, s);
            let (v, _) = frame(s, &wins, bits, jit);
            let mut level = true;
            for d in v {
                level = !level;
                match s.below(24) {
                    0 => {} // missed
                    1 => {
                        w.edge(level, d);
                        let t = junk_time(s, w.f, cfg);
                        w.edge(level, t);
                    }
                    _ => w.edge(level, d),
                }
            }
        }
    }
    if cfg.cap > 0 {
        let cap = cfg.cap.max(to_ticks(IDLE_US, w.f) + 4);
        for e in &mut w.edges[start..] {
            e.dt = e.dt.min(cap);
        }
    }
    for e in &mut w.edges {
        e.dt = e.dt.min(cfg.max);
    }
}

pub fn history(s: &mut Src, p: P, f: u32, cfg: &Cfg, ctx: &mut Ctx) -> Wire {
    let mut w = Wire::new(f);
    for _ in 0..s.below(cfg.segs + 1) {
        segment(s, p, &mut w, cfg, ctx);
    }
    w
}

/// Idle line, then the rising edge of what follows. Returns the index of that edge.
pub fn gap_then_rise(s: &mut Src, w: &mut Wire, cfg: &Cfg) -> usize {
    if w.level {
        let t = junk_time(s, w.f, cfg);
        w.push(t);
    }
    let t = idle(s, w.f, cfg);
    w.edge(true, t);
    w.edges.len() - 1
}

/// Rates of 40 kHz and more at which receivers are exercised.
pub const RATES: [u32; 34] = [
    1_000_000, 40_000, 100_000, 50_000, 44_100, 48_000, 57_600, 64_000, 76_000, 96_000, 115_200, 125_000, 192_000,
    250_000, 318_146, 320_000, 333_333, 500_000, 999_999, 1_193_182, 2_000_000, 4_000_000, 8_000_000, 12_345_678,
    14_318_180, 16_000_000, 48_000_000, 72_000_000, 84_000_000, 100_000_000, 168_000_000, 318_999_999, 1_000_000_000,
    4_294_967_295,
];

pub fn rate(s: &mut Src) -> u32 {
    match s.below(8) {
        0 => s.range(40_000, 400_000) as u32,
        1 => s.log(u32::MAX as u64).max(40_000) as u32,
        _ => *s.pick(&RATES),
    }
}

/// A clock type and a rate it is instantiated at.
pub fn clock(s: &mut Src) -> (crate::dut::Mono, u32) {
    use crate::dut::*;
    let m = *s.pick(&MONOS);
    match m {
        Mono::U32 | Mono::U64 => (m, rate(s)),
        _ => (m, *s.pick(&FUGIT_HZ)),
    }
}

pub fn show(edges: &[Edge]) -> String {
    let mut o = String::new();
    for (i, e) in edges.iter().enumerate() {
        if i == 400 {
            o.push_str(" ...");
            break;
        }
        o.push_str(&format!("{}{}", if e.rising { " ^" } else { " _" }, e.dt));
    }
    o.trim().to_string()
}
