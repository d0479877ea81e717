//! The protocols as published, written independently of the crate under test.
//! All lengths in microseconds.

use crate::engine::Src;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum P {
    Nec,
    Nec16,
    Samsung,
    Apple,
    Debug,
    Rc5,
    Rc6,
    Sbp,
    Denon,
}
pub const ALL: [P; 9] = [P::Nec, P::Nec16, P::Samsung, P::Apple, P::Debug, P::Rc5, P::Rc6, P::Sbp, P::Denon];
pub const NECS: [P; 5] = [P::Nec, P::Nec16, P::Samsung, P::Apple, P::Debug];
pub const ENCODABLE: [P; 7] = [P::Nec, P::Nec16, P::Samsung, P::Apple, P::Debug, P::Rc5, P::Rc6];

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Fam {
    NecStd,
    NecSam,
    Rc5,
    Rc6,
    Sbp,
    Denon,
}
pub const FAMS: [Fam; 6] = [Fam::NecStd, Fam::NecSam, Fam::Rc5, Fam::Rc6, Fam::Sbp, Fam::Denon];

impl P {
    pub fn fam(self) -> Fam {
        match self {
            P::Nec | P::Nec16 | P::Apple | P::Debug => Fam::NecStd,
            P::Samsung => Fam::NecSam,
            P::Rc5 => Fam::Rc5,
            P::Rc6 => Fam::Rc6,
            P::Sbp => Fam::Sbp,
            P::Denon => Fam::Denon,
        }
    }
    pub fn is_nec(self) -> bool {
        matches!(self.fam(), Fam::NecStd | Fam::NecSam)
    }
}

/// A decoded command of any protocol, field by field.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Dec {
    pub p: P,
    /// address; Apple: device id
    pub a: u32,
    /// command
    pub c: u32,
    /// Apple: page; raw NEC and Denon: the bits; RC5: start bits
    pub x: u64,
    /// NEC: repeat
    pub rep: bool,
    /// RC5/RC6: toggle; Blu-ray: valid
    pub flag: bool,
}

pub const APPLE_VENDOR: u64 = 0x43f;

/// What a receiver for `p` reports for a frame that carries `bits` (None: nothing).
///
/// bits: NEC 32, RC5 14 (bit 13 set), RC6 toggle << 16 | 16 bits, Blu-ray 16 address | 20 << 16, Denon 48
pub fn expected(p: P, bits: u64, rep: bool) -> Option<Dec> {
    let d = Dec { p, a: 0, c: 0, x: 0, rep, flag: false };
    Some(match p {
        P::Nec | P::Samsung => Dec { a: (bits & 0xff) as u32, c: (bits >> 16 & 0xff) as u32, ..d },
        P::Nec16 => Dec { a: (bits & 0xffff) as u32, c: (bits >> 16 & 0xff) as u32, ..d },
        P::Apple => {
            if (bits >> 5) & 0x7ff != APPLE_VENDOR || (bits & 0xffff_ffff).count_ones() % 2 == 0 {
                return None;
            }
            Dec { a: (bits >> 24 & 0xff) as u32, c: (bits >> 17 & 0x7f) as u32, x: bits & 0x1f, ..d }
        }
        P::Debug => Dec { x: bits & 0xffff_ffff, rep: false, ..d },
        P::Rc5 => Dec {
            a: (bits >> 6 & 0x1f) as u32,
            c: (bits & 0x3f) as u32,
            x: bits >> 12 & 3,
            rep: false,
            flag: bits >> 11 & 1 == 1,
            p,
        },
        P::Rc6 => {
            Dec { a: (bits >> 8 & 0xff) as u32, c: (bits & 0xff) as u32, rep: false, flag: bits >> 16 & 1 == 1, ..d }
        }
        P::Sbp => {
            let cmd = bits >> 20 & 0xff;
            let inv = bits >> 28 & 0xff;
            Dec { a: (bits & 0xffff) as u32, c: cmd as u32, rep: false, flag: cmd ^ inv == 0xff, ..d }
        }
        P::Denon => Dec { x: bits & 0xffff_ffff_ffff, rep: false, ..d },
    })
}

/// Number of free bits in a frame of this family.
pub fn nbits(f: Fam) -> u32 {
    match f {
        Fam::NecStd | Fam::NecSam => 32,
        Fam::Rc5 => 13,
        Fam::Rc6 => 17,
        Fam::Sbp => 36,
        Fam::Denon => 48,
    }
}

/// The frame bits for a free bit pattern.
pub fn fix_bits(f: Fam, free: u64) -> u64 {
    match f {
        Fam::Rc5 => free & 0x1fff | 1 << 13,
        _ => free & ((1u64 << nbits(f)) - 1),
    }
}

pub fn odd_parity(bits: u64) -> u64 {
    if (bits & !(1u64 << 16)).count_ones() % 2 == 1 {
        bits & !(1 << 16)
    } else {
        bits | 1 << 16
    }
}

pub fn apple_bits(page: u64, cmd: u64, dev: u64) -> u64 {
    odd_parity((page & 0x1f) | APPLE_VENDOR << 5 | (cmd & 0x7f) << 17 | (dev & 0xff) << 24)
}

/// Bits that a real remote for `p` sends (check bytes in place).
pub fn wellformed_bits(p: P, s: &mut Src) -> u64 {
    match p {
        P::Nec => {
            let a = s.bits(8);
            let c = s.bits(8);
            a | (!a & 0xff) << 8 | c << 16 | (!c & 0xff) << 24
        }
        P::Samsung => {
            let a = s.bits(8);
            let c = s.bits(8);
            a | a << 8 | c << 16 | (!c & 0xff) << 24
        }
        P::Nec16 => {
            let a = s.bits(16);
            let c = s.bits(8);
            a | c << 16 | (!c & 0xff) << 24
        }
        P::Apple => {
            let (a, b, c) = (s.bits(5), s.bits(7), s.bits(8));
            apple_bits(a, b, c)
        }
        P::Debug => s.bits(32),
        P::Sbp => {
            let a = s.bits(16);
            let u = s.bits(4);
            let c = s.bits(8);
            a | u << 16 | c << 20 | (!c & 0xff) << 28
        }
        _ => fix_bits(p.fam(), s.bits(nbits(p.fam()))),
    }
}

/// Well-formed most of the time, any bits otherwise.
pub fn any_bits(p: P, s: &mut Src) -> u64 {
    if s.below(4) < 3 {
        wellformed_bits(p, s)
    } else {
        fix_bits(p.fam(), s.bits(nbits(p.fam())))
    }
}

/// Pulse classes: (mark, space, tolerance in percent). Pulse-distance families: mark-to-mark periods.
/// Bi-phase families: class k is k + 1 units, `space` is 0.
pub fn classes(f: Fam) -> &'static [(u32, u32, u32)] {
    match f {
        Fam::NecStd => &[(9000, 4500, 7), (9000, 2250, 7), (560, 560, 25), (560, 1690, 12)],
        Fam::NecSam => &[(4500, 4500, 7), (4500, 2250, 7), (560, 560, 25), (560, 1690, 12)],
        Fam::Sbp => &[(4500, 4500, 5), (500, 4500, 5), (500, 500, 10), (500, 1500, 10)],
        Fam::Denon => &[(3400, 1600, 8), (480, 360, 10), (480, 1200, 10)],
        Fam::Rc5 => &[(889, 0, 12), (1778, 0, 10)],
        Fam::Rc6 => {
            &[(444, 0, 12), (888, 0, 12), (1332, 0, 12), (1776, 0, 12), (2220, 0, 12), (2664, 0, 12)]
        }
    }
}
pub fn biphase(f: Fam) -> bool {
    matches!(f, Fam::Rc5 | Fam::Rc6)
}
pub fn class_len(f: Fam, k: usize) -> u32 {
    let c = classes(f)[k];
    c.0 + c.1
}
pub fn closing_mark(f: Fam) -> u32 {
    match f {
        Fam::NecStd | Fam::NecSam => 560,
        Fam::Sbp => 500,
        Fam::Denon => 480,
        _ => 0,
    }
}

/// Pulse-distance frame: the class of each mark-to-mark period.
pub fn periods(f: Fam, bits: u64) -> Vec<usize> {
    let mut v = vec![0usize];
    let bit = |i: u32, zero: usize| zero + (bits >> i & 1) as usize;
    match f {
        Fam::NecStd | Fam::NecSam => v.extend((0..32).map(|i| bit(i, 2))),
        Fam::Sbp => {
            v.extend((0..16).map(|i| bit(i, 2)));
            v.push(1);
            v.extend((16..36).map(|i| bit(i, 2)));
        }
        Fam::Denon => v.extend((0..48).map(|i| bit(i, 1))),
        _ => unreachable!(),
    }
    v
}

/// Bi-phase frame: lengths in units of alternating mark, space, mark ... (last one a mark), and the
/// number of the pulse whose end completes the last bit.
pub fn units(f: Fam, bits: u64) -> (Vec<u32>, usize) {
    let mut halves: Vec<bool> = vec![];
    let mid;
    match f {
        Fam::Rc5 => {
            for i in (0..14).rev() {
                let b = bits >> i & 1 == 1;
                halves.extend([!b, b]);
            }
            // the space half of the first start bit cannot be seen
            halves.remove(0);
            mid = 26;
        }
        Fam::Rc6 => {
            halves.extend([true; 6]);
            halves.extend([false; 2]);
            halves.extend([true, false]);
            for _ in 0..3 {
                halves.extend([false, true]);
            }
            let t = bits >> 16 & 1 == 1;
            halves.extend([t, t, !t, !t]);
            for i in (0..16).rev() {
                let b = bits >> i & 1 == 1;
                halves.extend([b, !b]);
            }
            mid = 51;
        }
        _ => unreachable!(),
    }
    let mut v: Vec<u32> = vec![];
    let mut level = false;
    let mut done = 0;
    for (i, h) in halves.iter().enumerate() {
        if *h != level || i == 0 {
            if i == mid {
                done = v.len() - 1;
            }
            v.push(1);
            level = *h;
        } else {
            *v.last_mut().unwrap() += 1;
        }
    }
    if !level {
        v.pop();
    }
    (v, done)
}

// ------------------------------------------------------------------------------------------- windows

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Acc {
    In,
    Maybe,
    Out,
}

/// The part of the rate that the conversion of `len` may lose (it calculates in 32 bits: with
/// whole kHz, or whole MHz, when the product is larger), as a fraction.
pub fn coarse(len: u32, f: u32) -> f64 {
    if len as u64 * f as u64 <= u32::MAX as u64 {
        0.0
    } else if len as u64 * (f / 1000) as u64 <= u32::MAX as u64 {
        (f % 1000) as f64 / f as f64
    } else {
        (f % 1_000_000) as f64 / f as f64
    }
}

/// ((demanded low, high), (allowed low, high)), inclusive.
pub fn window(len: u32, tol: u32, f: u32) -> ((i64, i64), (i64, i64)) {
    let nn = len as u64 * f as u64;
    if nn % 1_000_000 == 0 && coarse(len, f) == 0.0 {
        let n = (nn / 1_000_000) as i64;
        let t = n * tol as i64 / 100;
        return ((n - t, n + t), (n - t, n + t));
    }
    let n = nn as f64 / 1e6;
    let t = tol as f64 / 100.0;
    let slack = coarse(len, f) * n;
    let lo_in = (n - t * n + 1.0 + t - 1e-6).ceil() as i64;
    let hi_in = (n + t * n - 2.0 - t - slack * (1.0 + t) + 1e-6).floor() as i64;
    let lo_out = (n - t * n - 1.0 - slack * (1.0 - t) - 1e-6).ceil() as i64;
    let hi_out = (n + t * n + 1e-6).floor() as i64;
    ((lo_in, hi_in), (lo_out, hi_out))
}

pub fn classify(len: u32, tol: u32, f: u32, d: u64) -> Acc {
    let d = d.min(i64::MAX as u64) as i64;
    let (inn, out) = window(len, tol, f);
    if inn.0 <= d && d <= inn.1 {
        Acc::In
    } else if out.0 <= d && d <= out.1 {
        Acc::Maybe
    } else {
        Acc::Out
    }
}

/// Precomputed windows of a family at a rate.
pub struct Wins {
    pub fam: Fam,
    pub f: u32,
    pub w: Vec<((i64, i64), (i64, i64))>,
}
impl Wins {
    pub fn new(fam: Fam, f: u32) -> Self {
        Wins { fam, f, w: classes(fam).iter().map(|c| window(c.0 + c.1, c.2, f)).collect() }
    }
    pub fn may(&self, k: usize, d: u64) -> bool {
        let d = d.min(i64::MAX as u64) as i64;
        self.w[k].1 .0 <= d && d <= self.w[k].1 .1
    }
    /// Ticks certain to be read as class k (an earlier class wins where two windows meet).
    pub fn sure(&self, k: usize) -> (u64, u64) {
        let (mut lo, mut hi) = self.w[k].0;
        let c = classes(self.fam)[k];
        let n = (c.0 + c.1) as f64 * self.f as f64 / 1e6;
        lo = lo.min(n.floor() as i64);
        hi = hi.max(n.ceil() as i64);
        for j in 0..k {
            if self.w[j].1 .0 <= hi && self.w[j].1 .1 >= lo {
                // overlaps an earlier window: stay above or below it
                if self.w[j].1 .1 < hi {
                    lo = self.w[j].1 .1 + 1;
                } else {
                    hi = self.w[j].1 .0 - 1;
                }
            }
        }
        (lo.max(1) as u64, hi.max(1) as u64)
    }
    /// Outside every window for certain?
    pub fn out_of_all(&self, d: u64) -> bool {
        (0..self.w.len()).all(|k| !self.may(k, d))
    }
    pub fn nominal(&self, k: usize) -> u64 {
        to_ticks(class_len(self.fam, k), self.f)
    }
}

/// Nearest whole number of ticks.
pub fn to_ticks(us: u32, f: u32) -> u64 {
    (us as u64 * f as u64 + 500_000) / 1_000_000
}

// ----------------------------------------------------------------------------------------- waveforms

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Edge {
    pub rising: bool,
    pub dt: u64,
}

/// How far the pulses of a generated frame may stray.
#[derive(Clone, Copy, PartialEq)]
pub enum Jit {
    Nominal,
    /// anywhere in the window, often at its ends; free mark/space split
    Full,
}

/// Line under construction.
#[derive(Clone)]
pub struct Wire {
    pub f: u32,
    pub edges: Vec<Edge>,
    pub level: bool,
}
impl Wire {
    pub fn new(f: u32) -> Self {
        Wire { f, edges: vec![], level: false }
    }
    pub fn push(&mut self, dt: u64) {
        self.level = !self.level;
        self.edges.push(Edge { rising: self.level, dt });
    }
    pub fn edge(&mut self, rising: bool, dt: u64) {
        self.level = rising;
        self.edges.push(Edge { rising, dt });
    }
    /// The pulses of a frame after its first rising edge.
    pub fn pulses(&mut self, v: &[u64]) {
        for d in v {
            self.push(*d);
        }
    }
}

pub fn jittered(s: &mut Src, w: &Wins, k: usize, jit: Jit) -> u64 {
    if jit == Jit::Nominal {
        return w.nominal(k);
    }
    let (lo, hi) = w.sure(k);
    if lo > hi {
        // too slow a clock to tell the pulses apart
        return w.nominal(k);
    }
    match s.below(6) {
        0 => w.nominal(k).clamp(lo, hi),
        1 => lo,
        2 => hi,
        _ => s.range(lo, hi),
    }
}

/// Split a period into mark and space.
pub fn split(s: &mut Src, w: &Wins, k: usize, d: u64, jit: Jit) -> (u64, u64) {
    let c = classes(w.fam)[k];
    let nm = to_ticks(c.0, w.f).min(d);
    if jit == Jit::Nominal {
        return (nm, d - nm);
    }
    let m = match s.below(6) {
        0..=3 => nm.min(d.saturating_sub(1)).max(1),
        4 => s.range(1, d.max(2) - 1),
        _ => *s.pick(&[1, d.max(2) - 1]),
    };
    (m.min(d), d - m.min(d))
}

/// Pulse lengths (mark first, mark last) of a frame, and the number of the pulse that completes it.
pub fn frame(s: &mut Src, w: &Wins, bits: u64, jit: Jit) -> (Vec<u64>, usize) {
    if biphase(w.fam) {
        let (u, done) = units(w.fam, bits);
        (u.iter().map(|k| jittered(s, w, *k as usize - 1, jit)).collect(), done)
    } else {
        let mut v = vec![];
        for k in periods(w.fam, bits) {
            let d = jittered(s, w, k, jit);
            let (m, sp) = split(s, w, k, d, jit);
            v.extend([m, sp]);
        }
        let done = v.len() - 1;
        v.push(to_ticks(closing_mark(w.fam), w.f).max(1));
        (v, done)
    }
}

pub fn repeat_code(s: &mut Src, w: &Wins, jit: Jit) -> (Vec<u64>, usize) {
    let d = jittered(s, w, 1, jit);
    let (m, sp) = split(s, w, 1, d, jit);
    (vec![m, sp, to_ticks(closing_mark(w.fam), w.f).max(1)], 1)
}

/// Longer than any pulse of any protocol.
pub const IDLE_US: u32 = 16_000;

// ------------------------------------------------------------------------------------- explanations

fn required(d: &Dec) -> Option<Vec<Option<bool>>> {
    let mut v: Vec<Option<bool>>;
    let set = |v: &mut Vec<Option<bool>>, at: usize, n: usize, val: u64| {
        for i in 0..n {
            v[at + i] = Some(val >> i & 1 == 1);
        }
    };
    match d.p {
        P::Nec | P::Samsung => {
            v = vec![None; 32];
            set(&mut v, 0, 8, d.a as u64);
            set(&mut v, 16, 8, d.c as u64);
            if d.a > 0xff || d.c > 0xff {
                return None;
            }
        }
        P::Nec16 => {
            v = vec![None; 32];
            set(&mut v, 0, 16, d.a as u64);
            set(&mut v, 16, 8, d.c as u64);
        }
        P::Apple => {
            if d.x > 0x1f || d.c > 0x7f || d.a > 0xff {
                return None;
            }
            v = vec![None; 32];
            set(&mut v, 0, 32, apple_bits(d.x, d.c as u64, d.a as u64));
        }
        P::Debug => {
            v = vec![None; 32];
            set(&mut v, 0, 32, d.x);
        }
        P::Sbp => {
            v = vec![None; 36];
            set(&mut v, 0, 16, d.a as u64);
            set(&mut v, 20, 8, d.c as u64);
            if d.flag {
                set(&mut v, 28, 8, !d.c as u64);
            }
        }
        P::Denon => {
            if d.x >> 48 != 0 {
                return None;
            }
            v = vec![None; 48];
            set(&mut v, 0, 48, d.x);
        }
        P::Rc5 => {
            if d.a > 0x1f || d.c > 0x3f || d.x > 3 || d.x < 2 {
                return None;
            }
            v = vec![None; 14];
            set(&mut v, 0, 14, d.c as u64 | (d.a as u64) << 6 | (d.flag as u64) << 11 | d.x << 12);
        }
        P::Rc6 => {
            v = vec![None; 16];
            set(&mut v, 0, 16, d.c as u64 | (d.a as u64) << 8);
        }
    }
    Some(v)
}

/// Is the command `d` (not a repeat) spelled by the pulses that end with the last of `edges`?
/// `edges` alternate.
pub fn explained(w: &Wins, edges: &[Edge], d: &Dec) -> bool {
    let Some(req) = required(d) else { return false };
    let e = edges.len() - 1;
    match w.fam {
        Fam::Rc5 => (0..=e).rev().any(|s| edges[s].rising && rc5_from(w, edges, s + 1, 0, 12, &req)),
        Fam::Rc6 => {
            (0..=e).rev().any(|s| edges[s].rising && e >= s + 2 && w.may(5, edges[s + 1].dt) && w.may(1, edges[s + 2].dt) && rc6_header(w, edges, s + 3, 0, 3, d.flag, &req))
        }
        _ => {
            if !edges[e].rising {
                return false;
            }
            let n = periods(w.fam, 0).len();
            // periods, newest first
            let mut ps = vec![];
            let mut i = e as i64;
            while ps.len() < n && i >= 0 {
                let mark = if i >= 1 { edges[i as usize - 1].dt } else { 0 };
                ps.push(edges[i as usize].dt.saturating_add(mark));
                i -= 2;
            }
            if ps.len() < n {
                return false;
            }
            ps.reverse();
            let zero = if w.fam == Fam::Denon { 1 } else { 2 };
            if !w.may(0, ps[0]) {
                return false;
            }
            let data: Vec<u64> = if w.fam == Fam::Sbp {
                if !w.may(1, ps[17]) {
                    return false;
                }
                ps[1..17].iter().chain(&ps[18..]).copied().collect()
            } else {
                ps[1..].to_vec()
            };
            let can = |i: usize, b: bool| w.may(zero + b as usize, data[i]);
            for (i, r) in req.iter().enumerate() {
                let ok = match r {
                    Some(b) => can(i, *b),
                    None => can(i, false) || can(i, true),
                };
                if !ok {
                    return false;
                }
            }
            if d.p == P::Sbp && !d.flag {
                // not complementary in at least one bit
                return (0..8).any(|i| can(28 + i, d.c >> i & 1 == 1));
            }
            true
        }
    }
}

fn rc5_from(w: &Wins, e: &[Edge], i: usize, clock: u32, bit: i32, req: &[Option<bool>]) -> bool {
    if i >= e.len() {
        return false;
    }
    for k in 0..2 {
        if !w.may(k, e[i].dt) {
            continue;
        }
        let c = clock + k as u32 + 1;
        if c % 2 == 0 {
            if req[bit as usize] != Some(e[i].rising) {
                continue;
            }
            if bit == 0 {
                if i == e.len() - 1 {
                    return true;
                }
                continue;
            }
            if rc5_from(w, e, i + 1, c, bit - 1, req) {
                return true;
            }
        } else if rc5_from(w, e, i + 1, c, bit, req) {
            return true;
        }
    }
    false
}

fn rc6_header(w: &Wins, e: &[Edge], i: usize, clock: u32, bit: i32, toggle: bool, req: &[Option<bool>]) -> bool {
    if i >= e.len() {
        return false;
    }
    for k in 0..6 {
        if !w.may(k, e[i].dt) {
            continue;
        }
        let c = clock + k as u32 + 1;
        let ok = if c % 2 == 1 {
            if bit == 0 {
                rc6_toggle(w, e, i + 1, c, toggle, req)
            } else {
                rc6_header(w, e, i + 1, c, bit - 1, toggle, req)
            }
        } else {
            rc6_header(w, e, i + 1, c, bit, toggle, req)
        };
        if ok {
            return true;
        }
    }
    false
}

fn rc6_toggle(w: &Wins, e: &[Edge], i: usize, clock: u32, toggle: bool, req: &[Option<bool>]) -> bool {
    if i >= e.len() {
        return false;
    }
    let r = e[i].rising;
    let d = e[i].dt;
    (!r && toggle && w.may(2, d) && rc6_data(w, e, i + 1, clock + 3, 15, req))
        || (r && !toggle && w.may(1, d) && rc6_data(w, e, i + 1, clock + 2, 15, req))
        || (!r && w.may(0, d) && rc6_toggle(w, e, i + 1, clock + 1, toggle, req))
}

fn rc6_data(w: &Wins, e: &[Edge], i: usize, clock: u32, bit: i32, req: &[Option<bool>]) -> bool {
    if i >= e.len() {
        return false;
    }
    for k in 0..6 {
        if !w.may(k, e[i].dt) {
            continue;
        }
        let c = clock + k as u32 + 1;
        if c % 2 == 1 {
            if req[bit as usize] != Some(!e[i].rising) {
                continue;
            }
            if bit == 0 {
                if i == e.len() - 1 {
                    return true;
                }
                continue;
            }
            if rc6_data(w, e, i + 1, c, bit - 1, req) {
                return true;
            }
        } else if rc6_data(w, e, i + 1, c, bit, req) {
            return true;
        }
    }
    false
}
