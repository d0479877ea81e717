//! C03 decoding, C04 no phantoms, C05 recovery, C08 clock types, C10 isolation, C11 repeats,
//! C12 tolerances, C18 decoder contract, C22 pulse tables.

use infrared::receiver::time::PulseSpans;
use infrared::receiver::{DecoderBuilder, NoPin, Receiver, State};

use crate::dut::{self, Buf, Front, Mono, Res, Ticks, FRONTS, FUGIT_HZ, MONOS};
use crate::engine::{Ctx, Kind, Law, Outcome, Src};
use crate::hist::{self, clock, gap_then_rise, history, show, Cfg};
use crate::laws::cmds;
use crate::laws::codec::label;
use crate::spec::*;
use crate::{by_mono, by_proto, ensure};

/// Check that exactly `want` is reported among the edges from `start` on.
fn only(res: &[Res], start: usize, want: &[(usize, Dec)], what: &dyn Fn() -> String) -> Outcome {
    let got: Vec<(usize, Dec)> = cmds(res).into_iter().filter(|x| x.0 >= start).collect();
    ensure!(got == want, "{}: reported {:?}, expected {:?}", what(), got, want);
    Ok(())
}

/// A front end that is instantiated for this clock.
pub fn front(s: &mut Src, m: Mono, f: u32) -> Front {
    let fr = *s.pick(&FRONTS);
    if matches!(m, Mono::U32 | Mono::U64) || f == 1_000_000 || f == 64_000 {
        fr
    } else {
        Front::Event
    }
}

// ------------------------------------------------------------------------------------------------ C03

fn c03_frame(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let (m, f) = clock(s);
    let fr = front(s, m, f);
    let bits = any_bits(p, s);
    let w = Wins::new(p.fam(), f);
    let jit = if s.below(8) == 0 { Jit::Nominal } else { Jit::Full };
    let mut wire = Wire::new(f);
    // the first edge: any idle time, also none
    let lead = match s.below(3) {
        0 => 0,
        1 => hist::idle(s, f, &Cfg::alternating(u32::MAX as u64 / 2)),
        _ => s.log(u32::MAX as u64 / 2),
    };
    // a first time that is the length of a pulse would be one
    let lead = if w.out_of_all(lead) { lead } else { 0 };
    wire.push(lead);
    let (v, done) = frame(s, &w, bits, jit);
    wire.pulses(&v);
    let want: Vec<(usize, Dec)> = expected(p, bits, false).map(|d| (done + 1, d)).into_iter().collect();
    ctx.nontrivial = jit == Jit::Full && !want.is_empty();
    ctx.label(label(p));
    ctx.sample(|| format!("{:?} {:?}@{} {:?} bits {:#x}: {}", p, m, f, fr, bits, show(&wire.edges)));
    let r = dut::run(p, m, fr, f, &wire.edges);
    only(&r, 0, &want, &|| format!("{:?} {:?}@{} Hz {:?}, frame bits {:#x}: {}", p, m, f, fr, bits, show(&wire.edges)))
}

/// Every command a remote can send (all but the 32-bit raw and 48-bit Denon ones), by rows of 256
/// frames in one session.
const FRAME_ROWS: u64 = 65536 * 2 + 4096 + 2 * 256 + 32 + 512;
fn c03_every(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut i = s.below(FRAME_ROWS);
    let f = if s.bool() { 1_000_000 } else { 40_000 };
    let mut p = P::Nec16;
    for (q, n) in [(P::Nec16, 65536), (P::Sbp, 65536), (P::Apple, 4096), (P::Nec, 256), (P::Samsung, 256), (P::Rc5, 32), (P::Rc6, 512)] {
        p = q;
        if i < n {
            break;
        }
        i -= n;
    }
    let wins = Wins::new(p.fam(), f);
    let mut w = Wire::new(f);
    let mut want = vec![];
    let gap = to_ticks(IDLE_US, f) + 4;
    for c in 0..256u64 {
        let inv = (!c & 0xff) << 24;
        let bits = match p {
            P::Nec16 => i | c << 16 | inv,
            P::Sbp => i | (c & 15) << 16 | c << 20 | (!c & 0xff) << 28,
            P::Apple => apple_bits(i >> 7, i & 0x7f, c),
            P::Nec => i | (!i & 0xff) << 8 | c << 16 | inv,
            P::Samsung => i | i << 8 | c << 16 | inv,
            P::Rc5 => fix_bits(Fam::Rc5, i << 8 | c),
            _ => i << 8 | c,
        };
        if w.level {
            w.push(1);
        }
        w.edge(true, gap);
        let at = w.edges.len() - 1;
        let (v, done) = frame(s, &wins, bits, Jit::Nominal);
        w.pulses(&v);
        want.push((at + done + 1, expected(p, bits, false).unwrap()));
    }
    ctx.nontrivial = true;
    ctx.inner += 256;
    ctx.label(label(p));
    ctx.sample(|| format!("{:?}@{} frames from {:?} to {:?}", p, f, want[0].1, want[255].1));
    let got = cmds(&dut::run(p, Mono::U32, Front::Event, f, &w.edges));
    let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    ensure!(got == want, "{:?}@{} Hz: 256 nominal frames, number {} is {:?} and reported as {:?}", p, f, k, want.get(k), got.get(k));
    Ok(())
}

/// Raw NEC frames with every bit pattern, and as many Denon frames.
fn c03_raw(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    fn feed<Pr: DecoderBuilder<u32>>(r: &mut Receiver<Pr, NoPin, u32>, bits: u64, n: u32, lead: (u32, u32), per: (u32, u32, u32)) -> Option<Pr::Cmd> {
        let mut last = None;
        let mut ev = |rising: bool, dt: u32| {
            let q = r.event(dt, rising);
            if let Ok(Some(c)) = q {
                // only ever at the end
                last = Some(c);
            }
        };
        ev(true, 60_000);
        ev(false, lead.0);
        ev(true, lead.1);
        for i in 0..n {
            ev(false, per.0);
            ev(true, if bits >> i & 1 == 1 { per.2 } else { per.1 });
        }
        ev(false, per.0);
        last
    }
    let row = s.below(65536);
    let extra = s.bits(16);
    let mut nec: Receiver<infrared::protocol::NecDebug, NoPin, u32> = Receiver::new(1_000_000);
    let mut den: Receiver<infrared::protocol::Denon, NoPin, u32> = Receiver::new(1_000_000);
    ctx.nontrivial = true;
    ctx.inner += 65536 + 4096;
    ctx.sample(|| format!("raw NEC frames from {:#010x}", row << 16));
    for lo in 0..65536u64 {
        let bits = row << 16 | lo;
        let got = feed(&mut nec, bits, 32, (9000, 4500), (560, 560, 1690));
        ensure!(got.map(|c| c.bits as u64) == Some(bits), "raw NEC frame {:#010x} is reported as {:x?}", bits, got);
        if lo % 16 == 0 {
            let bits = (extra << 16 | row) << 16 | lo ^ extra;
            let bits = bits & 0xffff_ffff_ffff;
            let got = feed(&mut den, bits, 48, (3400, 1600), (480, 360, 1200)).map(|c| c.bits);
            ensure!(got == Some(bits), "Denon frame {:#014x} is reported as {:x?}", bits, got);
        }
    }
    Ok(())
}

fn c03_stream(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let (m, f) = clock(s);
    let w = Wins::new(p.fam(), f);
    let cfg = Cfg::alternating(u32::MAX as u64);
    let mut wire = Wire::new(f);
    let mut want = vec![];
    let n = s.range(2, 5);
    for _ in 0..n {
        let at = gap_then_rise(s, &mut wire, &cfg);
        let bits = any_bits(p, s);
        let (v, done) = frame(s, &w, bits, Jit::Full);
        wire.pulses(&v);
        if let Some(d) = expected(p, bits, false) {
            want.push((at + done + 1, d));
        }
    }
    ctx.nontrivial = want.len() > 1;
    ctx.label(label(p));
    ctx.sample(|| format!("{:?} {:?}@{}: {} frames", p, m, f, n));
    let r = dut::run(p, m, Front::Event, f, &wire.edges);
    only(&r, 0, &want, &|| format!("{:?} {:?}@{} Hz: {}", p, m, f, show(&wire.edges)))
}

fn c03_polled(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let f = if s.bool() { *s.pick(&[40_000, 48_000, 50_000, 100_000, 44_100]) } else { s.range(40_000, 200_000) as u32 };
    let bits = any_bits(p, s);
    let w = Wins::new(p.fam(), f);
    let mut wire = Wire::new(f);
    let t = s.range(1, 2000);
    wire.push(if w.out_of_all(t) { t } else { 1 });
    let (v, done) = frame(s, &w, bits, Jit::Full);
    wire.pulses(&v);
    // a poll sees every level for at least one period
    for e in &mut wire.edges {
        e.dt = e.dt.max(1);
    }
    let want: Vec<(usize, Dec)> = expected(p, bits, false).map(|d| (done + 1, d)).into_iter().collect();
    ctx.nontrivial = !want.is_empty();
    ctx.label(label(p));
    ctx.sample(|| format!("{:?} polled at {}: {}", p, f, show(&wire.edges)));
    let pin = s.bool();
    match dut::polled(p, pin, f, &wire.edges) {
        None => Err(format!("{:?} polled at {} Hz reports something between edges: {}", p, f, show(&wire.edges))),
        Some(r) => only(&r, 0, &want, &|| format!("{:?} polled at {} Hz: {}", p, f, show(&wire.edges))),
    }
}

// ------------------------------------------------------------------------------------------------ C04

pub fn check_explained(p: P, f: u32, edges: &[Edge], res: &[Res], ctx: &mut Ctx) -> Outcome {
    let w = Wins::new(p.fam(), f);
    let mut last: Option<Dec> = None;
    for (i, r) in res.iter().enumerate() {
        let Ok(Some(d)) = r else { continue };
        ctx.nontrivial = true;
        let frame_ok = !d.rep && explained(&w, &edges[..=i], d);
        let rep_ok = p.is_nec()
            && (d.rep || p == P::Debug)
            && edges[i].rising
            && w.may(1, edges[i].dt.saturating_add(if i > 0 { edges[i - 1].dt } else { 0 }))
            && last.is_some_and(|l| Dec { rep: false, ..l } == Dec { rep: false, ..*d });
        if rep_ok && !frame_ok {
            ctx.label("repeat reported");
        } else {
            ctx.label("frame reported");
        }
        ensure!(
            frame_ok || rep_ok,
            "{:?}@{} Hz reports {:?} at edge {}, which the pulses before it do not spell (last report {:?}): {}",
            p,
            f,
            d,
            i,
            last,
            show(&edges[i.saturating_sub(110)..=i])
        );
        last = Some(*d);
    }
    Ok(())
}

fn c04_history(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let (m, f) = clock(s);
    let cfg = Cfg::alternating(m.max());
    let w = history(s, p, f, &cfg, ctx);
    ctx.label(label(p));
    ctx.sample(|| format!("{:?} {:?}@{}: {}", p, m, f, show(&w.edges)));
    let r = dut::run(p, m, Front::Event, f, &w.edges);
    check_explained(p, f, &w.edges, &r, ctx)
}

/// Frames with exactly one thing wrong: the decoder should report nothing but what is spelled.
fn c04_near(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let (m, f) = clock(s);
    let wins = Wins::new(p.fam(), f);
    let cfg = Cfg::alternating(m.max());
    let mut w = Wire::new(f);
    if s.bool() {
        // a good frame before it, so that there is something left over
        let at = hist::idle(s, f, &cfg);
        w.push(at);
        let b = any_bits(p, s);
        let (v, _) = frame(s, &wins, b, Jit::Nominal);
        w.pulses(&v);
    }
    gap_then_rise(s, &mut w, &cfg);
    let bits = any_bits(p, s);
    let (mut v, _) = frame(s, &wins, bits, Jit::Full);
    let i = s.below(v.len() as u64) as usize;
    v[i] = match s.below(4) {
        0 => hist::class_time(s, &wins),
        1 => hist::junk_time(s, f, &cfg),
        2 => v[i] / 2,
        _ => v[i].saturating_mul(2).min(m.max()),
    };
    w.pulses(&v);
    // followed by another frame, with little or no pause
    let t = if s.bool() { hist::class_time(s, &wins) } else { hist::junk_time(s, f, &cfg) };
    w.push(t.min(m.max()));
    let b = any_bits(p, s);
    let (v, _) = frame(s, &wins, b, Jit::Full);
    w.pulses(&v);
    if p.is_nec() {
        gap_then_rise(s, &mut w, &cfg);
        let (v, _) = repeat_code(s, &wins, Jit::Full);
        w.pulses(&v);
    }
    ctx.label(label(p));
    ctx.sample(|| format!("{:?} {:?}@{}: {}", p, m, f, show(&w.edges)));
    let r = dut::run(p, m, Front::Event, f, &w.edges);
    check_explained(p, f, &w.edges, &r, ctx)
}

// ------------------------------------------------------------------------------------------------ C05

fn c05_event(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let (m, f) = clock(s);
    let fr = {
        let fr = front(s, m, f);
        // timestamps cannot carry maximal times
        if matches!(fr, Front::Instant | Front::PinInstant) && m != Mono::U64 {
            Front::Event
        } else {
            fr
        }
    };
    let mut cfg = if s.below(3) > 0 { Cfg::wild(m.max()) } else { Cfg::alternating(m.max()) };
    if matches!(fr, Front::Instant | Front::PinInstant) {
        cfg.max = 1 << 40;
    }
    let mut w = history(s, p, f, &cfg, ctx);
    ctx.nontrivial = !w.edges.is_empty();
    let at = gap_then_rise(s, &mut w, &cfg);
    let bits = any_bits(p, s);
    let wins = Wins::new(p.fam(), f);
    let (v, done) = frame(s, &wins, bits, Jit::Full);
    w.pulses(&v);
    let want: Vec<(usize, Dec)> = expected(p, bits, false).map(|d| (at + done + 1, d)).into_iter().collect();
    ctx.label(label(p));
    ctx.sample(|| format!("{:?} {:?}@{} {:?}: {} | frame from edge {}", p, m, f, fr, show(&w.edges), at));
    let r = dut::run(p, m, fr, f, &w.edges);
    only(&r, at, &want, &|| {
        format!("{:?} {:?}@{} Hz {:?}, well-formed frame from edge {} on, after {}", p, m, f, fr, at, show(&w.edges))
    })
}

fn c05_reset(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let (m, f) = clock(s);
    let cfg = Cfg::wild(m.max());
    let mut w = history(s, p, f, &cfg, ctx);
    let at = gap_then_rise(s, &mut w, &cfg);
    let bits = any_bits(p, s);
    let wins = Wins::new(p.fam(), f);
    let (v, done) = frame(s, &wins, bits, Jit::Full);
    w.pulses(&v);
    // resets anywhere before the frame
    let mut resets: Vec<usize> = (0..s.below(4)).map(|_| s.below(at as u64 + 1) as usize).collect();
    resets.sort_unstable();
    ctx.nontrivial = !resets.is_empty() && at > 0;
    ctx.label(label(p));
    ctx.sample(|| format!("{:?} {:?}@{} resets before edges {:?}: {}", p, m, f, resets, show(&w.edges)));
    let mut d = dut::decoder(p, m, f);
    let mut got = vec![];
    for (i, e) in w.edges.iter().enumerate() {
        if resets.contains(&i) {
            d.reset();
        }
        if let Ok(Some(c)) = d.event_total(e.rising, e.dt) {
            if i >= at {
                got.push((i, c));
            }
        }
    }
    let want: Vec<(usize, Dec)> = expected(p, bits, false).map(|d| (at + done + 1, d)).into_iter().collect();
    ensure!(
        got == want,
        "{:?} {:?}@{} Hz decoder with resets before edges {:?}, well-formed frame from edge {} on, reported {:?}, expected {:?}: {}",
        p,
        m,
        f,
        resets,
        at,
        got,
        want,
        show(&w.edges)
    );
    Ok(())
}

fn c05_buffer(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let m = *s.pick(&MONOS);
    let f = if matches!(m, Mono::U32 | Mono::U64) { hist::rate(s) } else { 1_000_000 };
    let cfg = Cfg::alternating(m.max());
    let mut w = history(s, p, f, &cfg, ctx);
    let at = gap_then_rise(s, &mut w, &cfg);
    ctx.nontrivial = at > 0;
    let prefix: Vec<u64> = w.edges[..at].iter().map(|e| e.dt).collect();
    let bits = any_bits(p, s);
    let wins = Wins::new(p.fam(), f);
    let (v, _) = frame(s, &wins, bits, Jit::Full);
    w.pulses(&v);
    let dts: Vec<u64> = w.edges.iter().map(|e| e.dt).collect();
    ctx.label(label(p));
    ctx.sample(|| format!("{:?} {:?}@{}: {}", p, m, f, show(&w.edges)));
    let how = if s.bool() { Buf::Freq } else { Buf::IterWith };
    let before = dut::buffer(p, m, how, f, &prefix);
    let all = dut::buffer(p, m, how, f, &dts);
    let mut want = before.clone();
    want.extend(expected(p, bits, false));
    ensure!(
        all == want,
        "{:?} {:?}@{} Hz buffer receiver: {:?} without and {:?} with the well-formed frame from entry {} on: {}",
        p,
        m,
        f,
        before,
        all,
        at,
        show(&w.edges)
    );
    Ok(())
}

fn c05_polled(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let f = *s.pick(&[40_000u32, 48_000, 50_000, 64_000]);
    let cfg = Cfg::polled(f);
    let mut w = history(s, p, f, &cfg, ctx);
    let at = gap_then_rise(s, &mut w, &cfg);
    ctx.nontrivial = at > 0;
    let bits = any_bits(p, s);
    let wins = Wins::new(p.fam(), f);
    let (v, done) = frame(s, &wins, bits, Jit::Full);
    w.pulses(&v);
    for e in &mut w.edges {
        e.dt = e.dt.max(1);
    }
    let want: Vec<(usize, Dec)> = expected(p, bits, false).map(|d| (at + done + 1, d)).into_iter().collect();
    ctx.label(label(p));
    ctx.sample(|| format!("{:?} polled at {}: {}", p, f, show(&w.edges)));
    let pin = s.bool();
    match dut::polled(p, pin, f, &w.edges) {
        None => Err(format!("{:?} polled at {} Hz reports something between edges: {}", p, f, show(&w.edges))),
        Some(r) => only(&r, at, &want, &|| {
            format!("{:?} polled at {} Hz, well-formed frame from edge {} on, after {}", p, f, at, show(&w.edges))
        }),
    }
}

// ------------------------------------------------------------------------------------------------ C08

/// Whole-kHz rates up to 300 MHz at which fugit clocks are instantiated.
fn whole_khz(s: &mut Src) -> u32 {
    let v: Vec<u32> = FUGIT_HZ.iter().copied().filter(|f| f % 1000 == 0 && *f <= 300_000_000).collect();
    *s.pick(&v)
}

fn diff(p: P, f: u32, monos: &[Mono], w: &Wire, ctx: &mut Ctx) -> Outcome {
    let base = dut::run(p, monos[0], Front::Event, f, &w.edges);
    ctx.nontrivial = base.iter().any(|r| *r != Ok(None));
    if base.iter().any(|r| matches!(r, Ok(Some(_)))) {
        ctx.label("has command");
    }
    for m in &monos[1..] {
        let r = dut::run(p, *m, Front::Event, f, &w.edges);
        if let Some(i) = (0..base.len()).find(|i| base[*i] != r[*i]) {
            return Err(format!(
                "{:?}@{} Hz: at edge {} the {:?} clock gives {:?}, the {:?} clock {:?}: {}",
                p,
                f,
                i,
                monos[0],
                base[i],
                m,
                r[i],
                show(&w.edges)
            ));
        }
    }
    Ok(())
}

fn c08_all(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let f = whole_khz(s);
    let cfg = if s.bool() { Cfg::wild(u32::MAX as u64) } else { Cfg::alternating(u32::MAX as u64) };
    let w = history(s, p, f, &cfg, ctx);
    ctx.label(label(p));
    ctx.sample(|| format!("{:?}@{}: {}", p, f, show(&w.edges)));
    diff(p, f, &MONOS, &w, ctx)
}

fn c08_int(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let f = if s.chance(1, 4) { s.log(u32::MAX as u64) as u32 } else { hist::rate(s) };
    let cfg = if s.bool() { Cfg::wild(u32::MAX as u64) } else { Cfg::alternating(u32::MAX as u64) };
    let w = history(s, p, f, &cfg, ctx);
    ctx.label(label(p));
    ctx.sample(|| format!("{:?}@{}: {}", p, f, show(&w.edges)));
    diff(p, f, &[Mono::U32, Mono::U64], &w, ctx)
}

/// A clock type defined by the user, with 64-bit times, against u64.
fn c08_own(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let f = hist::rate(s);
    let fr = match front(s, Mono::U64, f) {
        Front::Built => Front::Event,
        x => x,
    };
    let cfg = if s.bool() { Cfg::wild(1 << 40) } else { Cfg::alternating(1 << 40) };
    let mut w = history(s, p, f, &cfg, ctx);
    for e in &mut w.edges {
        e.dt = e.dt.min(1 << 40);
    }
    let base = dut::run(p, Mono::U64, Front::Event, f, &w.edges);
    ctx.nontrivial = base.iter().any(|r| *r != Ok(None));
    ctx.label(label(p));
    ctx.sample(|| format!("{:?}@{} {:?}: {}", p, f, fr, show(&w.edges)));
    let got = dut::run_own(p, fr, f, &w.edges);
    if let Some(i) = (0..base.len()).find(|i| base[*i] != got[*i]) {
        return Err(format!(
            "{:?}@{} Hz: at edge {} the u64 clock gives {:?}, a user's own 64-bit clock {:?} ({:?}): {}",
            p, f, i, base[i], got[i], fr, show(&w.edges)
        ));
    }
    Ok(())
}

fn c08_frames(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let f = *s.pick(&FUGIT_HZ);
    let wins = Wins::new(p.fam(), f);
    let cfg = Cfg::alternating(u32::MAX as u64);
    let mut w = Wire::new(f);
    for _ in 0..s.range(1, 3) {
        gap_then_rise(s, &mut w, &cfg);
        let bits = any_bits(p, s);
        let (v, _) = frame(s, &wins, bits, Jit::Full);
        w.pulses(&v);
    }
    ctx.label(label(p));
    ctx.sample(|| format!("{:?}@{}: {}", p, f, show(&w.edges)));
    diff(p, f, &MONOS, &w, ctx)
}

/// The rate of a fugit clock is part of its type: the frequency a receiver is built with is not
/// needed, and the builder works without one.
fn c08_fugit_rate(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    fn go<Pr, M>(how: u64, g: u32, edges: &[Edge]) -> Vec<Res>
    where
        M: dut::Ticks,
        Pr: DecoderBuilder<M>,
        Dec: From<Pr::Cmd>,
    {
        let mut r: Receiver<Pr, NoPin, M> = match how {
            0 => infrared::receiver().protocol::<Pr>().monotonic::<M>().build(),
            1 => infrared::receiver().monotonic::<M>().frequency(g).protocol::<Pr>().build(),
            _ => Receiver::new(g),
        };
        edges.iter().map(|e| r.event(M::dur(e.dt), e.rising).map(|c| c.map(Into::into))).collect()
    }
    let p = *s.pick(&ALL);
    let m = *s.pick(&[Mono::F32, Mono::F64]);
    let f = *s.pick(&FUGIT_HZ);
    let g = if s.bool() { hist::rate(s) } else { s.log(u32::MAX as u64) as u32 };
    let how = s.below(3);
    let wins = Wins::new(p.fam(), f);
    let cfg = Cfg::alternating(u32::MAX as u64);
    let mut w = history(s, p, f, &cfg, ctx);
    gap_then_rise(s, &mut w, &cfg);
    let bits = any_bits(p, s);
    let (v, _) = frame(s, &wins, bits, Jit::Full);
    w.pulses(&v);
    let base = dut::run(p, m, Front::Event, f, &w.edges);
    ctx.nontrivial = base.iter().any(|r| matches!(r, Ok(Some(_))));
    ctx.label(label(p));
    ctx.sample(|| format!("{:?} {:?}@{} built with {} ({}): {}", p, m, f, g, how, show(&w.edges)));
    let got = by_proto!(p, T => by_mono!(m, f, M => go::<T, M>(how, g, &w.edges)));
    if let Some(i) = (0..base.len()).find(|i| base[*i] != got[*i]) {
        return Err(format!(
            "{:?} {:?}@{} Hz: at edge {} a receiver built with frequency {} (way {}) gives {:?}, expected {:?}: {}",
            p, m, f, i, if how == 0 { 1_000_000 } else { g }, how, got[i], base[i], show(&w.edges)
        ));
    }
    Ok(())
}

/// Pulse classification agrees between the clock types, duration by duration.
fn c08_classes(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let f = whole_khz(s);
    let wins = Wins::new(p.fam(), f);
    let ds: Vec<_> = MONOS.iter().map(|m| dut::decoder(p, *m, f)).collect();
    let cfg = Cfg::alternating(u32::MAX as u64);
    for _ in 0..32 {
        let t = if s.chance(1, 6) { hist::junk_time(s, f, &cfg) } else { hist::class_time(s, &wins) };
        let r: Vec<_> = ds.iter().map(|d| d.class(t)).collect();
        ctx.inner += 1;
        ctx.nontrivial |= r[0].is_some();
        ctx.sample(|| format!("{:?}@{}: {} ticks -> {:?}", p, f, t, r));
        ensure!(r.iter().all(|x| *x == r[0]), "{:?}@{} Hz: {} ticks is read as {:?} by u32, u64, fugit32, fugit64", p, f, t, r);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C10

fn c10_mixed(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let (m, f) = clock(s);
    let cfg = Cfg::alternating(u32::MAX as u64);
    let mut w = Wire::new(f);
    // (family, bits or repeat, index of the completing edge)
    let mut sent: Vec<(Fam, Option<u64>, usize)> = vec![];
    let n = s.range(1, 5);
    for _ in 0..n {
        let fam = *s.pick(&FAMS);
        let wins = Wins::new(fam, f);
        let at = gap_then_rise(s, &mut w, &cfg);
        if matches!(fam, Fam::NecStd | Fam::NecSam) && s.chance(1, 4) {
            let (v, done) = repeat_code(s, &wins, Jit::Nominal);
            w.pulses(&v);
            sent.push((fam, None, at + done + 1));
        } else {
            let q = hist::proto_of(s, fam);
            let bits = any_bits(q, s);
            let (v, done) = frame(s, &wins, bits, Jit::Nominal);
            w.pulses(&v);
            sent.push((fam, Some(bits), at + done + 1));
        }
    }
    ctx.nontrivial = sent.iter().any(|x| x.0 != sent[0].0);
    ctx.sample(|| format!("{:?}@{}: {:x?}", m, f, sent));
    for p in ALL {
        let r = dut::run(p, m, Front::Event, f, &w.edges);
        let got = cmds(&r);
        // own frames must be reported; own repeats may be (C11 says when)
        let mut want = vec![];
        let mut optional = vec![];
        for (fam, bits, at) in &sent {
            if *fam != p.fam() {
                continue;
            }
            match bits {
                Some(b) => want.extend(expected(p, *b, false).map(|d| (*at, d))),
                None => optional.push(*at),
            }
        }
        let rest: Vec<_> = got.iter().filter(|g| !optional.contains(&g.0)).copied().collect();
        ensure!(
            rest == want,
            "{:?} receiver {:?}@{} Hz on a line with {:x?} reports {:?}, expected {:?}: {}",
            p,
            m,
            f,
            sent,
            rest,
            want,
            show(&w.edges)
        );
    }
    Ok(())
}

/// One frame or repeat code of one family, every other family's receivers.
fn c10_single(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let fam = *s.pick(&FAMS);
    let (m, f) = clock(s);
    let wins = Wins::new(fam, f);
    let mut w = Wire::new(f);
    let t = hist::idle(s, f, &Cfg::alternating(u32::MAX as u64));
    w.push(t);
    let bits = fix_bits(fam, s.bits(nbits(fam)));
    let (v, _) = if matches!(fam, Fam::NecStd | Fam::NecSam) && s.chance(1, 16) {
        repeat_code(s, &wins, Jit::Nominal)
    } else {
        frame(s, &wins, bits, Jit::Nominal)
    };
    w.pulses(&v);
    w.push(to_ticks(IDLE_US, f) + 4);
    ctx.nontrivial = true;
    ctx.sample(|| format!("{:?} bits {:#x} {:?}@{}", fam, bits, m, f));
    for p in ALL {
        if p.fam() == fam {
            continue;
        }
        let got = cmds(&dut::run(p, m, Front::Event, f, &w.edges));
        ensure!(got.is_empty(), "{:?} receiver {:?}@{} Hz reports {:?} for a {:?} frame with bits {:#x}: {}", p, m, f, got, fam, bits, show(&w.edges));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C11

fn c11_script(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&NECS);
    let (m, f) = clock(s);
    let wins = Wins::new(p.fam(), f);
    let cfg = Cfg::alternating(u32::MAX as u64);
    let mut w = Wire::new(f);
    // for each edge with a claim: (edge, must report, may report)
    enum Claim {
        Exactly(Option<Dec>),
        NoneOr(Option<Dec>),
    }
    let mut claims: Vec<(usize, Claim)> = vec![];
    let mut script = String::new();
    // last complete frame, as reported, and whether something damaged came after it
    let mut last: Option<Dec> = None;
    let mut any_complete = false;
    let mut dirty = false;
    let n = s.range(1, 9);
    for _ in 0..n {
        match s.weighted(&[4, 6, 2, 1, 2]) {
            0 => {
                let at = gap_then_rise(s, &mut w, &cfg);
                let bits = any_bits(p, s);
                let (v, done) = frame(s, &wins, bits, Jit::Full);
                w.pulses(&v);
                last = expected(p, bits, false);
                any_complete = true;
                dirty = false;
                claims.push((at + done + 1, Claim::Exactly(last)));
                script.push_str(" frame");
            }
            1 => {
                let at = gap_then_rise(s, &mut w, &cfg);
                let (v, done) = repeat_code(s, &wins, Jit::Full);
                w.pulses(&v);
                let rep = last.map(|d| Dec { rep: p != P::Debug, ..d });
                if !any_complete {
                    claims.push((at + done + 1, Claim::Exactly(None)));
                } else if dirty {
                    claims.push((at + done + 1, Claim::NoneOr(rep)));
                } else {
                    claims.push((at + done + 1, Claim::Exactly(rep)));
                    if rep.is_some() {
                        ctx.nontrivial = true;
                    }
                }
                script.push_str(" repeat");
            }
            2 => {
                // damaged: cut short, or one period outside every window
                gap_then_rise(s, &mut w, &cfg);
                let bits = any_bits(p, s);
                let (mut v, done) = frame(s, &wins, bits, Jit::Full);
                if s.bool() {
                    // at least the lead-in, at most one period short of complete
                    let k = 2 * s.range(1, (done as u64 - 1) / 2) as usize;
                    v.truncate(k + 1);
                    script.push_str(" truncated");
                } else {
                    let k = 1 + s.below(done as u64 / 2) as usize;
                    // between the one and the repeat window, or shorter than a zero
                    let bad = match s.below(2) {
                        0 => to_ticks(4000, f),
                        _ => to_ticks(300, f),
                    };
                    v[2 * k] = bad / 2;
                    v[2 * k + 1] = bad - bad / 2;
                    script.push_str(" damaged");
                }
                w.pulses(&v);
                dirty = true;
                ctx.label("damage");
            }
            4 => {
                // cut off at a rising edge that is also the start of a repeat code
                gap_then_rise(s, &mut w, &cfg);
                let bits = any_bits(p, s);
                let (mut v, done) = frame(s, &wins, bits, Jit::Full);
                let k = 2 * s.range(1, (done as u64 - 1) / 2) as usize;
                v.truncate(k);
                w.pulses(&v);
                let at = w.edges.len() - 1;
                let (v, done) = repeat_code(s, &wins, Jit::Full);
                w.pulses(&v);
                let rep = last.map(|d| Dec { rep: p != P::Debug, ..d });
                claims.push((at + done + 1, Claim::NoneOr(rep)));
                dirty = true;
                ctx.label("repeat in frame");
                script.push_str(" truncated+repeat");
            }
            _ => {
                // a spike too short to be anything
                gap_then_rise(s, &mut w, &cfg);
                let a = s.range(1, to_ticks(200, f).max(1));
                w.push(a);
                script.push_str(" spike");
            }
        }
    }
    ctx.label(label(p));
    ctx.sample(|| format!("{:?} {:?}@{}:{}", p, m, f, script));
    let r = dut::run(p, m, Front::Event, f, &w.edges);
    let say = |i: usize, got: &Option<Dec>, want: String| {
        format!("{:?} {:?}@{} Hz, script{}: edge {} reports {:?}, expected {}: {}", p, m, f, script, i, got, want, show(&w.edges))
    };
    for (i, x) in r.iter().enumerate() {
        let got = x.as_ref().ok().copied().flatten();
        match claims.iter().find(|c| c.0 == i).map(|c| &c.1) {
            None => ensure!(got.is_none(), "{}", say(i, &got, "nothing".into())),
            Some(Claim::Exactly(d)) => ensure!(got == *d, "{}", say(i, &got, format!("{:?}", d))),
            Some(Claim::NoneOr(d)) => ensure!(got.is_none() || got == *d, "{}", say(i, &got, format!("nothing or {:?}", d))),
        }
    }
    Ok(())
}

/// Many repeats in a row.
fn c11_long(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&NECS);
    let (m, f) = clock(s);
    let wins = Wins::new(p.fam(), f);
    let mut w = Wire::new(f);
    let cfg = Cfg::alternating(u32::MAX as u64);
    let at = gap_then_rise(s, &mut w, &cfg);
    let bits = wellformed_bits(p, s);
    let (v, done) = frame(s, &wins, bits, Jit::Full);
    w.pulses(&v);
    let d = expected(p, bits, false).unwrap();
    let mut want = vec![(at + done + 1, d)];
    let n = s.range(10, 300);
    for _ in 0..n {
        let at = gap_then_rise(s, &mut w, &cfg);
        let (v, done) = repeat_code(s, &wins, Jit::Full);
        w.pulses(&v);
        want.push((at + done + 1, Dec { rep: p != P::Debug, ..d }));
    }
    ctx.nontrivial = true;
    ctx.sample(|| format!("{:?} {:?}@{} {:?} and {} repeats", p, m, f, d, n));
    let r = dut::run(p, m, Front::Event, f, &w.edges);
    let got = cmds(&r);
    ensure!(got == want, "{:?} {:?}@{} Hz: {:?} with {} repeats: first difference {:?}", p, m, f, d, n, got.iter().zip(&want).find(|(a, b)| a != b).or(got.last().zip(want.last())));
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C12

/// Durations at and around both ends of a window.
fn around(s: &mut Src, wins: &Wins, k: usize) -> u64 {
    let (inn, out) = wins.w[k];
    let at = *s.pick(&[inn.0, inn.1, out.0, out.1]);
    match s.below(4) {
        0 => at.max(0) as u64,
        1 => (at + s.irange(-2, 2)).max(0) as u64,
        2 => {
            let n = wins.nominal(k) as i64;
            (at + s.irange(-n / 50 - 1, n / 50 + 1)).max(0) as u64
        }
        _ => {
            let n = wins.nominal(k) as i64;
            (n + s.irange(-n / 2, n / 2)).max(0) as u64
        }
    }
}

/// The decoder's own table, duration by duration.
fn c12_table(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let (m, f) = clock(s);
    let wins = Wins::new(p.fam(), f);
    let d = dut::decoder(p, m, f);
    let n = wins.w.len();
    for _ in 0..32 {
        let k = s.below(n as u64) as usize;
        let t = around(s, &wins, k).min(m.max());
        let got = d.class(t);
        ctx.inner += 1;
        let acc: Vec<Acc> = classes(p.fam()).iter().map(|c| classify(c.0 + c.1, c.2, f, t)).collect();
        if acc.contains(&Acc::In) {
            ctx.nontrivial = true;
        }
        let ok = match got {
            Some(i) => i < n && acc[i] != Acc::Out && acc[..i].iter().all(|a| *a != Acc::In),
            None => acc.iter().all(|a| *a != Acc::In),
        };
        ctx.sample(|| format!("{:?} {:?}@{}: {} ticks -> {:?}", p, m, f, t, got));
        ensure!(ok, "{:?} {:?}@{} Hz: {} ticks is read as class {:?}, the tolerance table says {:?}", p, m, f, t, got, acc);
    }
    Ok(())
}

/// One pulse or period of a frame is moved; the rest is nominal.
fn c12_frame(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let (m, f) = clock(s);
    let fam = p.fam();
    let wins = Wins::new(fam, f);
    let bits = wellformed_bits(p, s);
    let mut w = Wire::new(f);
    let t = hist::idle(s, f, &Cfg::alternating(u32::MAX as u64));
    w.push(t);
    let (mut v, done) = frame(s, &wins, bits, Jit::Nominal);
    let (k, t) = if biphase(fam) {
        let (u, _) = units(fam, bits);
        // only pulses up to the completing edge count
        let i = s.below(done as u64 + 1) as usize;
        let k = u[i] as usize - 1;
        let t = around(s, &wins, k).min(m.max());
        v[i] = t;
        (k, t)
    } else {
        let ks = periods(fam, bits);
        let i = s.below(ks.len() as u64) as usize;
        let t = around(s, &wins, ks[i]).min(m.max());
        let (a, b) = split(s, &wins, ks[i], t, Jit::Full);
        v[2 * i] = a;
        v[2 * i + 1] = b;
        (ks[i], t)
    };
    w.pulses(&v);
    let (lo, hi) = wins.sure(k);
    let inside = lo <= t && t <= hi;
    let outside = wins.out_of_all(t);
    ctx.label(if inside { "inside" } else if outside { "outside" } else { "either" });
    ctx.nontrivial = inside || outside;
    ctx.sample(|| format!("{:?} {:?}@{} class {} moved to {} ticks (sure {}..{})", p, m, f, k, t, lo, hi));
    let r = cmds(&dut::run(p, m, Front::Event, f, &w.edges));
    if inside {
        let want = expected(p, bits, false).map(|d| (done + 1, d));
        ensure!(
            r.first().copied() == want && r.len() == 1,
            "{:?} {:?}@{} Hz: pulse of class {} at {} ticks is inside its window, but the frame is reported as {:?}: {}",
            p,
            m,
            f,
            k,
            t,
            r,
            show(&w.edges)
        );
    } else if outside {
        ensure!(
            r.is_empty(),
            "{:?} {:?}@{} Hz: pulse of class {} at {} ticks is outside every window, but {:?} is reported: {}",
            p,
            m,
            f,
            k,
            t,
            r,
            show(&w.edges)
        );
    }
    Ok(())
}

/// A pulse outside every window in addition to those of the frame, after the lead-in.
fn c12_extra(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&[P::Nec, P::Nec16, P::Samsung, P::Apple, P::Debug, P::Sbp, P::Denon]);
    let (m, f) = clock(s);
    let fam = p.fam();
    let wins = Wins::new(fam, f);
    let bits = wellformed_bits(p, s);
    let mut w = Wire::new(f);
    let t = hist::idle(s, f, &Cfg::alternating(u32::MAX as u64));
    w.push(t);
    let jit = if s.bool() { Jit::Full } else { Jit::Nominal };
    let (mut v, _) = frame(s, &wins, bits, jit);
    let ks = periods(fam, bits);
    // before the last bit, so that it comes before the completing edge
    let i = s.range(1, ks.len() as u64 - 1) as usize;
    let k = s.below(wins.w.len() as u64) as usize;
    let t = match s.below(3) {
        0 => s.log(2 * wins.nominal(0)).max(2),
        1 => (1u64 << *s.pick(&[8u32, 16, 24, 31, 12])) + wins.nominal(k),
        _ => around(s, &wins, k),
    };
    let t = t.min(m.max());
    if !wins.out_of_all(t) || t < 2 {
        ctx.label("inside");
        return Ok(());
    }
    let a = s.range(1, t - 1);
    v.insert(2 * i, t - a);
    v.insert(2 * i, a);
    w.pulses(&v);
    ctx.nontrivial = true;
    ctx.sample(|| format!("{:?} {:?}@{} a pulse of {} ticks before pulse {}", p, m, f, t, i));
    let r = cmds(&dut::run(p, m, Front::Event, f, &w.edges));
    ensure!(
        r.is_empty(),
        "{:?} {:?}@{} Hz: {} ticks before pulse {} of a frame are outside every window, but {:?} is reported: {}",
        p,
        m,
        f,
        t,
        i,
        r,
        show(&w.edges)
    );
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C18

fn c18_contract(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let (m, f) = clock(s);
    let cfg = Cfg::wild(m.max());
    let w = history(s, p, f, &cfg, ctx);
    let wins = Wins::new(p.fam(), f);
    let mut d = dut::decoder(p, m, f);
    let mut prev: (State, Option<Dec>) = (State::Idle, None);
    let reset_one_in = *s.pick(&[0u64, 3, 20, 60]);
    let c0 = d.command();
    ensure!(c0.is_none(), "{:?} {:?}@{}: a new decoder has the command {:?}", p, m, f, c0);
    ctx.label(label(p));
    ctx.sample(|| format!("{:?} {:?}@{}: {}", p, m, f, show(&w.edges)));
    for (i, e) in w.edges.iter().enumerate() {
        let ended = matches!(prev.0, State::Done | State::Error(_));
        if reset_one_in > 0 && (s.chance(1, reset_one_in) || (ended && s.bool())) {
            d.reset();
            let c = d.command();
            ensure!(c.is_none(), "{:?} {:?}@{} Hz: command {:?} right after a reset before edge {}: {}", p, m, f, c, i, show(&w.edges[..i]));
            prev = (State::Idle, None);
        }
        let st = d.event(e.rising, e.dt);
        let c = d.command();
        let c2 = d.command();
        ensure!(c == c2, "{:?}: asking twice gives {:?} and {:?}", p, c, c2);
        ensure!(
            c.is_none() || st == State::Done,
            "{:?} {:?}@{} Hz: hands out {:?} in state {:?} at edge {}: {}",
            p,
            m,
            f,
            c,
            st,
            i,
            show(&w.edges[..=i])
        );
        ensure!(
            st != State::Done || c.is_some() || p == P::Apple,
            "{:?} {:?}@{} Hz: done, but no command at edge {}: {}",
            p,
            m,
            f,
            i,
            show(&w.edges[..=i])
        );
        let ended = matches!(prev.0, State::Done | State::Error(_));
        if ended {
            ctx.nontrivial = true;
            let may_restart = biphase(p.fam()) && d.class(e.dt).is_none();
            ensure!(
                may_restart || (st, c) == prev,
                "{:?} {:?}@{} Hz: at edge {} it goes from {:?} to {:?} without a reset: {}",
                p,
                m,
                f,
                i,
                prev,
                (st, c),
                show(&w.edges[..=i])
            );
        }
        prev = (st, c);
    }
    let _ = wins;
    Ok(())
}

/// After a reset: like a new decoder, edge by edge.
fn c18_reset(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let (m, f) = clock(s);
    let cfg = Cfg::wild(m.max());
    let h1 = history(s, p, f, &cfg, ctx);
    let h2 = history(s, p, f, &cfg, ctx);
    let cut = s.below(h1.edges.len() as u64 + 1) as usize;
    ctx.label(label(p));
    ctx.nontrivial = cut > 0 && !h2.edges.is_empty();
    ctx.sample(|| format!("{:?} {:?}@{}: {} | reset | {}", p, m, f, show(&h1.edges[..cut]), show(&h2.edges)));
    let mut a = dut::decoder(p, m, f);
    let total = s.bool();
    for e in &h1.edges[..cut] {
        if total {
            let _ = a.event_total(e.rising, e.dt);
        } else {
            a.event(e.rising, e.dt);
        }
    }
    a.reset();
    let mut b = dut::decoder(p, m, f);
    // NEC may remember a complete command: until a new lead-in is seen, repeat codes may differ
    let mut prev_fall = 0u64;
    let wins = Wins::new(p.fam(), f);
    for (i, e) in h2.edges.iter().enumerate() {
        let ra = (a.event(e.rising, e.dt), a.command());
        let rb = (b.event(e.rising, e.dt), b.command());
        if p.is_nec() && ra != rb {
            let per = e.dt.saturating_add(prev_fall);
            if e.rising && wins.may(1, per) {
                // explained by a remembered command; the states differ from here on
                ctx.label("repeat remembered");
                a.reset();
                b.reset();
                prev_fall = 0;
                continue;
            }
        }
        ensure!(
            ra == rb,
            "{:?} {:?}@{} Hz: after {} and a reset, edge {} of {} gives {:?}, a new decoder {:?}",
            p,
            m,
            f,
            show(&h1.edges[..cut]),
            i,
            show(&h2.edges[..=i]),
            ra,
            rb
        );
        prev_fall = if e.rising { 0 } else { e.dt };
        if matches!(ra.0, State::Done | State::Error(_)) && s.bool() {
            a.reset();
            b.reset();
            prev_fall = 0;
        }
    }
    Ok(())
}

fn c18_total(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let (m, f) = clock(s);
    let cfg = Cfg::wild(m.max());
    let w = history(s, p, f, &cfg, ctx);
    ctx.label(label(p));
    ctx.sample(|| format!("{:?} {:?}@{}: {}", p, m, f, show(&w.edges)));
    let mut a = dut::decoder(p, m, f);
    let mut b = dut::decoder(p, m, f);
    for (i, e) in w.edges.iter().enumerate() {
        let x = a.event_total(e.rising, e.dt);
        let y = match b.event(e.rising, e.dt) {
            State::Idle | State::Receiving => Ok(None),
            State::Done => {
                let c = b.command();
                b.reset();
                Ok(c)
            }
            State::Error(er) => {
                b.reset();
                Err(er)
            }
        };
        ctx.nontrivial |= x != Ok(None);
        ensure!(x == y, "{:?} {:?}@{} Hz: event_total gives {:?} at edge {}, by hand {:?}: {}", p, m, f, x, i, y, show(&w.edges[..=i]));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C22

fn spans_case<M: Ticks>(f: u32, pulse: &[u32; 8], tol: &[u32; 8], ds: &[u64]) -> (Vec<Option<usize>>, bool) {
    let sp = PulseSpans::<M>::new(f, pulse, tol);
    (ds.iter().map(|d| sp.get::<usize>(M::dur(*d))).collect(), sp.check_overlaps())
}

/// Any tolerance, often one that makes a window start at zero.
fn any_tol(s: &mut Src) -> u32 {
    match s.below(8) {
        0 => 100,
        1 => s.range(51, 100) as u32,
        _ => s.below(51) as u32,
    }
}

fn c22_table(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let m = *s.pick(&MONOS);
    let f = match m {
        Mono::U32 | Mono::U64 => match s.below(5) {
            0 => 1_000_000,
            1 => *s.pick(&[10_000, 20_000, 40_000, 100_000, 500_000, 2_000_000, 16_000_000, 100_000_000, 1_000_000_000]),
            2 => s.range(20_000, 318_000) as u32,
            3 => s.range(20, 300_000) as u32 * 1000,
            _ => s.log(1_000_000_000).max(10_000) as u32,
        },
        _ => *s.pick(&FUGIT_HZ),
    };
    // a used entry is at least 3 ticks long
    let minlen = (3_000_000 / f as u64 + 1).max(1);
    let used = s.range(1, 8) as usize;
    let mut pulse = [0u32; 8];
    let mut tol = [0u32; 8];
    for i in 0..used {
        let near = i > 0 && s.chance(1, 3);
        pulse[i] = if near {
            // near another entry, so that windows touch, overlap or nest
            let j = s.below(i as u64) as usize;
            ((pulse[j] as u64 * s.range(50, 150) / 100).clamp(minlen, 40_000)) as u32
        } else if s.chance(1, 8) {
            0
        } else {
            s.log(40_000).max(minlen) as u32
        };
        tol[i] = any_tol(s);
    }
    if s.chance(1, 4) {
        // unused entries may carry a tolerance, too
        for t in tol.iter_mut().skip(used) {
            *t = any_tol(s);
        }
    }
    let wins: Vec<_> = (0..8).map(|i| if pulse[i] == 0 { None } else { Some(window(pulse[i], tol[i], f)) }).collect();
    let mut ds: Vec<u64> = vec![0, 1];
    for _ in 0..24 {
        let i = s.below(used as u64) as usize;
        let d = match &wins[i] {
            Some((inn, out)) => {
                let at = *s.pick(&[inn.0, inn.1, out.0, out.1]);
                (at + s.irange(-2, 2)).max(0) as u64
            }
            None => s.log(50_000_000),
        };
        ds.push(d);
    }
    ds.push(s.log(u32::MAX as u64));
    ctx.sample(|| format!("{:?}@{} table {:?} tolerances {:?}", m, f, pulse, tol));
    let (got, ov) = by_mono!(m, f, M => spans_case::<M>(f, &pulse, &tol, &ds));
    for (d, g) in ds.iter().zip(&got) {
        let acc: Vec<Acc> = (0..8)
            .map(|i| if pulse[i] == 0 { Acc::Out } else { classify(pulse[i], tol[i], f, *d) })
            .collect();
        ctx.inner += 1;
        let ok = match g {
            Some(i) => *i < 8 && acc[*i] != Acc::Out && acc[..*i].iter().all(|a| *a != Acc::In),
            None => acc.iter().all(|a| *a != Acc::In),
        };
        if acc.contains(&Acc::In) {
            ctx.nontrivial = true;
        }
        ensure!(ok, "{:?}@{} Hz, table {:?} tolerances {:?}: {} ticks gives entry {:?}, windows say {:?}", m, f, pulse, tol, d, g, acc);
    }
    // overlap: certain from the inner windows, impossible from the outer ones
    let mut sure = false;
    let mut may = false;
    for i in 0..8 {
        for j in 0..i {
            if let (Some(a), Some(b)) = (&wins[i], &wins[j]) {
                let sh = |x: (i64, i64), y: (i64, i64)| x.0 <= x.1 && y.0 <= y.1 && x.0 <= y.1 && y.0 <= x.1;
                sure |= sh(a.0, b.0);
                may |= sh(a.1, b.1);
            }
        }
    }
    ctx.label(if sure { "overlap" } else if may { "overlap unclear" } else { "no overlap" });
    ensure!((!sure || ov) && (may || !ov), "{:?}@{} Hz, table {:?} tolerances {:?}: check_overlaps is {}", m, f, pulse, tol, ov);
    Ok(())
}

pub fn laws() -> Vec<Law> {
    vec![
        Law { prop: "C03", name: "frame", kind: Kind::Random(600_000, 12_000_000), rule: "one spec frame (any bits), pulses anywhere in their windows, any split, any clock and front end; non-trivial: jittered and to be reported", run: c03_frame },
        Law { prop: "C03", name: "every_frame", kind: Kind::Exhaustive(FRAME_ROWS, 1, 3), rule: "every command of NEC, 16-bit NEC, Samsung, Apple, RC5, RC6 and Blu-ray as a nominal frame, 256 per session", run: c03_every },
        Law { prop: "C03", name: "stream", kind: Kind::Random(150_000, 3_000_000), rule: "2..5 frames with gaps; non-trivial: two or more to be reported", run: c03_stream },
        Law { prop: "C03", name: "raw_sweep", kind: Kind::Sweep(16, 2_000), rule: "65536 raw NEC frames (thorough: every pattern) and 4096 Denon frames per case", run: c03_raw },
        Law { prop: "C03", name: "polled", kind: Kind::Random(30_000, 600_000), rule: "one frame, polled tick by tick, with and without pin", run: c03_polled },
        Law { prop: "C04", name: "histories", kind: Kind::Random(400_000, 10_000_000), rule: "alternating histories of up to 6 segments; non-trivial: something was reported (and had to be explained)", run: c04_history },
        Law { prop: "C04", name: "near_misses", kind: Kind::Random(400_000, 8_000_000), rule: "frames with one wrong pulse between good frames, then a repeat code; non-trivial: something was reported", run: c04_near },
        Law { prop: "C05", name: "events", kind: Kind::Random(400_000, 10_000_000), rule: "history (edges missed and doubled, too), idle gap, frame; non-trivial: history not empty", run: c05_event },
        Law { prop: "C05", name: "resets", kind: Kind::Random(200_000, 4_000_000), rule: "bare decoder, resets at random points before the frame", run: c05_reset },
        Law { prop: "C05", name: "buffers", kind: Kind::Random(150_000, 3_000_000), rule: "commands of the history alone, then the one of the frame", run: c05_buffer },
        Law { prop: "C05", name: "polled", kind: Kind::Random(15_000, 300_000), rule: "history + gap + frame, polled tick by tick", run: c05_polled },
        Law { prop: "C08", name: "integer_clocks", kind: Kind::Random(200_000, 5_000_000), rule: "same history, u32 and u64 at any rate; non-trivial: something other than Ok(None) is reported", run: c08_int },
        Law { prop: "C08", name: "all_clocks", kind: Kind::Random(200_000, 5_000_000), rule: "same history, u32, u64, fugit 32 and 64 at whole-kHz rates", run: c08_all },
        Law { prop: "C08", name: "own_clock", kind: Kind::Random(60_000, 1_500_000), rule: "same history, u64 and a clock type defined by the user, any front end; non-trivial: something other than Ok(None) is reported", run: c08_own },
        Law { prop: "C08", name: "frames_any_rate", kind: Kind::Random(100_000, 2_000_000), rule: "well-formed frames at every fugit rate", run: c08_frames },
        Law { prop: "C08", name: "fugit_rate", kind: Kind::Random(60_000, 1_500_000), rule: "fugit receivers built without or with any frequency; non-trivial: a command is reported", run: c08_fugit_rate },
        Law { prop: "C08", name: "classes", kind: Kind::Random(200_000, 5_000_000), rule: "32 durations around the windows per case; non-trivial: one has a class", run: c08_classes },
        Law { prop: "C10", name: "mixed_stream", kind: Kind::Random(100_000, 2_500_000), rule: "1..5 nominal frames/repeat codes of random families, all nine receivers listening; non-trivial: more than one family", run: c10_mixed },
        Law { prop: "C10", name: "single", kind: Kind::Random(150_000, 4_000_000), rule: "one nominal frame with any bits, all receivers of other families", run: c10_single },
        Law { prop: "C11", name: "scripts", kind: Kind::Random(300_000, 8_000_000), rule: "scripts of frames, repeats, damaged/truncated frames and spikes; non-trivial: a repeat had to be reported", run: c11_script },
        Law { prop: "C11", name: "long_runs", kind: Kind::Random(6_000, 100_000), rule: "a frame and 10..300 repeats", run: c11_long },
        Law { prop: "C12", name: "tables", kind: Kind::Random(300_000, 8_000_000), rule: "32 durations at the window ends per case, looked up in the decoder's table; non-trivial: one inside a window", run: c12_table },
        Law { prop: "C12", name: "frames", kind: Kind::Random(500_000, 12_000_000), rule: "nominal frame with one pulse moved to/around a window end; non-trivial: the verdict is certain", run: c12_frame },
        Law { prop: "C12", name: "extra", kind: Kind::Random(100_000, 2_000_000), rule: "a pulse outside every window inserted into a pulse-distance frame; non-trivial: it is outside", run: c12_extra },
        Law { prop: "C18", name: "contract", kind: Kind::Random(300_000, 6_000_000), rule: "event/reset scripts; non-trivial: an edge arrived in an end state", run: c18_contract },
        Law { prop: "C18", name: "reset_is_fresh", kind: Kind::Random(300_000, 6_000_000), rule: "history, reset, second history against a new decoder; non-trivial: both not empty", run: c18_reset },
        Law { prop: "C18", name: "event_total", kind: Kind::Random(150_000, 3_000_000), rule: "event_total against event/command/reset", run: c18_total },
        Law { prop: "C22", name: "tables", kind: Kind::Random(400_000, 10_000_000), rule: "random tables (touching, overlapping and nested windows, unused entries), 27 durations at window ends each; non-trivial: one inside a window", run: c22_table },
    ]
}
