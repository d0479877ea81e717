//! C06 no panics, C07 ways of feeding, C19 failing pins, C20 wrap-around and backward time.

use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

use infrared::cmd::{AddressCommand, AnyCommand, Command};
use infrared::protocol::denon::DenonCommand;
use infrared::protocol::nec::{AppleNecCommand, Nec16Command, NecCommand, NecCommandVariant, NecDebugCmd, SamsungNecCommand};
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::sbp::SbpCommand;
use infrared::receiver::time::PulseSpans;
use infrared::receiver::{
    BufferInputReceiver, DecoderBuilder, DecodingError, Error, NoPin, PeriodicPoll, ProtocolDecoder, Receiver, State,
};
use infrared::remotecontrol::{nec::*, rc5::CdPlayer, sbp::SamsungBluRayPlayer, Action, Button, RemoteControlModel};
use infrared::sender::{PulsedataSender, Status};
use infrared::Protocol;

use crate::dut::{self, pinres, Buf, Front, Mono, PinRes, Res, TestPin, Ticks, FRONTS, FUGIT_HZ};
use crate::engine::{Ctx, Kind, Law, Outcome, Src};
use crate::hist::{self, clock, gap_then_rise, history, show, Cfg};
use crate::laws::cmds;
use crate::laws::codec::label;
use crate::laws::decode::check_explained;
use crate::laws::misc::{sbp_dec, APPLE, BLURAY, CD_PLAYER, MP3, SAMSUNG_TV};
use crate::spec::*;
use crate::{by_proto, ensure};

// ------------------------------------------------------------------------------------------------ C06

fn any_time(s: &mut Src, m: Mono) -> u64 {
    match s.below(6) {
        0 => 0,
        1 => *s.pick(&[1, u32::MAX as u64, 1 << 31, (1 << 31) - 1, u64::MAX, u64::MAX - 1, 1 << 63, i64::MAX as u64]),
        2 => m.max() - s.below(10_000),
        _ => s.log(m.max()),
    }
    .min(m.max())
}

fn any_rate(s: &mut Src) -> u32 {
    match s.below(5) {
        0 => *s.pick(&[0, 1, 2, 999, 1000, 1001, 20_000, u32::MAX, u32::MAX - 1, 1 << 31, 318_145, 318_146]),
        1 => hist::rate(s),
        2 => s.bits(32) as u32,
        _ => s.log(u32::MAX as u64) as u32,
    }
}

/// Edges: a wild history in which any time may be replaced by any other.
fn any_edges(s: &mut Src, p: P, m: Mono, f: u32, ctx: &mut Ctx) -> Vec<Edge> {
    let mut w = if s.below(4) > 0 {
        history(s, p, f, &Cfg::wild(m.max()), ctx)
    } else {
        let mut w = Wire::new(f);
        for _ in 0..s.range(1, 120) {
            let r = s.bool();
            let t = any_time(s, m);
            w.edge(r, t);
        }
        w
    };
    if !w.edges.is_empty() {
        for _ in 0..s.below(6) {
            let i = s.below(w.edges.len() as u64) as usize;
            w.edges[i].dt = any_time(s, m);
        }
    }
    w.edges
}

fn c06_events(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let m = *s.pick(&dut::MONOS);
    let f = match m {
        Mono::U32 | Mono::U64 => any_rate(s),
        _ => *s.pick(&FUGIT_HZ),
    };
    let fr = if matches!(m, Mono::U32 | Mono::U64) || f == 1_000_000 || f == 64_000 { *s.pick(&FRONTS) } else { Front::Event };
    let e = any_edges(s, p, m, f, ctx);
    ctx.nontrivial = !e.is_empty();
    ctx.label(label(p));
    ctx.sample(|| format!("{:?} {:?}@{} {:?}: {}", p, m, f, fr, show(&e)));
    let r = dut::run(p, m, fr, f, &e);
    ensure!(r.len() == e.len(), "{} results for {} edges", r.len(), e.len());
    Ok(())
}

fn c06_instants(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let m = *s.pick(&dut::MONOS);
    let f = match m {
        Mono::U32 | Mono::U64 => any_rate(s),
        _ => *s.pick(&[64_000, 1_000_000]),
    };
    let e = any_edges(s, p, m, f, ctx);
    // timestamps: any, backward, or running sums that wrap
    let mode = s.below(3);
    let mut t = any_time(s, m);
    let v: Vec<(bool, u64)> = e
        .iter()
        .map(|e| {
            t = match mode {
                0 => t.wrapping_add(e.dt),
                1 => e.dt,
                _ => t.wrapping_sub(e.dt),
            } & m.max();
            (e.rising, t)
        })
        .collect();
    let pin = s.bool();
    ctx.nontrivial = !v.is_empty();
    ctx.sample(|| format!("{:?} {:?}@{}: {} instants, mode {}", p, m, f, v.len(), mode));
    let r = dut::instants(p, m, pin, f, &v);
    ensure!(r.len() == v.len(), "{} results for {} edges", r.len(), v.len());
    Ok(())
}

fn c06_buffers(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let m = *s.pick(&dut::MONOS);
    let f = if matches!(m, Mono::U32 | Mono::U64) { any_rate(s) } else { 1_000_000 };
    let e = any_edges(s, p, m, f, ctx);
    let d: Vec<u64> = e.iter().map(|e| e.dt).collect();
    let how = if s.bool() { Buf::Freq } else { Buf::IterWith };
    ctx.nontrivial = !d.is_empty();
    ctx.sample(|| format!("{:?} {:?}@{}: {:?}", p, m, f, d));
    let r = dut::buffer(p, m, how, f, &d);
    ensure!(r.len() <= d.len(), "{} commands from {} edges", r.len(), d.len());
    Ok(())
}

fn c06_polled(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    fn go<Pr>(f: u32, l: &[(bool, u64)]) -> u64
    where
        Pr: DecoderBuilder<u32>,
        Dec: From<Pr::Cmd>,
    {
        let mut r: PeriodicPoll<Pr, NoPin, Dec> = PeriodicPoll::new(f);
        let mut n = 0;
        for (x, k) in l {
            for _ in 0..*k {
                let _ = r.poll(*x);
                n += 1;
            }
        }
        n
    }
    let p = *s.pick(&ALL);
    let f = any_rate(s);
    let l: Vec<(bool, u64)> = (0..s.range(1, 150)).map(|_| (s.bool(), s.log(400))).collect();
    ctx.nontrivial = true;
    ctx.sample(|| format!("{:?} polled at {}: {:?}", p, f, l));
    ctx.inner += by_proto!(p, T => go::<T>(f, &l));
    Ok(())
}

/// Any value of the struct, fields in range or not.
fn any_struct(s: &mut Src, p: P) -> Dec {
    Dec { p, a: s.bits(16) as u32, c: s.bits(8) as u32, x: s.bits(32), rep: s.bool(), flag: s.bool() }
}

fn c06_encode(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ENCODABLE);
    let d = any_struct(s, p);
    let f = *s.pick(dut::enc_rates());
    ctx.nontrivial = true;
    ctx.label(label(p));
    ctx.sample(|| format!("{:?} at {}", d, f));
    let mut b = [0u32; 128];
    let n = dut::encode(f, &d, &mut b);
    ensure!(n <= 128, "{} entries in a buffer of 128", n);
    Ok(())
}

fn c06_sender(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut snd: PulsedataSender<128> = PulsedataSender::new();
    let mut t = s.bits(32) as u32;
    let n = s.range(1, 300);
    ctx.nontrivial = true;
    ctx.sample(|| format!("{} steps from {}", n, t));
    for _ in 0..n {
        match s.below(12) {
            0 => {
                let p = *s.pick(&ENCODABLE);
                let d = any_struct(s, p);
                match p {
                    P::Nec => snd.load_command::<infrared::protocol::Nec, 40_000>(&dut::nec(&d)),
                    P::Nec16 => snd.load_command::<infrared::protocol::Nec16, 100_000>(&dut::nec16(&d)),
                    P::Samsung => snd.load_command::<infrared::protocol::SamsungNec, 40_000>(&dut::samsung(&d)),
                    P::Apple => snd.load_command::<infrared::protocol::AppleNec, 44_100>(&dut::apple(&d)),
                    P::Debug => snd.load_command::<infrared::protocol::NecDebug, 20_000>(&dut::debug(&d)),
                    P::Rc5 => snd.load_command::<infrared::protocol::Rc5, 40_000>(&dut::rc5(&d)),
                    _ => snd.load_command::<infrared::protocol::Rc6, 333_333>(&dut::rc6(&d)),
                }
            }
            1 => snd.reset(),
            2 => {
                let _ = snd.buffer().len();
            }
            k => {
                t = match k {
                    3 => s.bits(32) as u32,
                    4 => t.wrapping_sub(s.log(1 << 20) as u32),
                    5 => t,
                    6 => t.wrapping_add(s.log(u32::MAX as u64) as u32),
                    7 => t.wrapping_add(s.range(300, 1000) as u32),
                    _ => t.wrapping_add(s.range(1, 40) as u32),
                };
                ensure!(snd.tick(t) != Status::Error, "sender reports an error");
            }
        }
    }
    Ok(())
}

fn c06_convert(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let (a, c) = (s.bits(32) as u32, s.bits(32) as u32);
    let b = s.bits(64);
    let rep = s.bool();
    ctx.nontrivial = true;
    ctx.sample(|| format!("{:#x} {:#x} {:#x}", a, c, b));
    fn use_any<C: AddressCommand + Command + Into<AnyCommand>>(c: C) -> u64 {
        let x = u64::from(c.address()) ^ u64::from(c.command()) ^ c.raw() ^ u64::from(c.is_repeat());
        let y: AnyCommand = c.into();
        x ^ u64::from(y.command)
    }
    fn create<C: AddressCommand + Into<AnyCommand>>(a: u32, c: u32) -> u64 {
        C::create(a, c).map(use_any).unwrap_or(0)
    }
    fn nec<C: NecCommandVariant>(b: u64, rep: bool) -> u64 {
        let v = C::validate(b as u32);
        C::unpack(b as u32, rep).map(|c| c.pack()).unwrap_or(0) as u64 ^ v as u64
    }
    let mut x = 0u64;
    for (a, c) in [(a, c), (a & 0xff, c & 0xff), (a & 0xff, c), (a & 0x1f, c & 0x3f), (a & 0xffff, c & 0xff)] {
        x ^= create::<NecCommand>(a, c);
        x ^= create::<SamsungNecCommand>(a, c);
        x ^= create::<AppleNecCommand>(a, c);
        x ^= create::<Rc5Command>(a, c);
        x ^= create::<Rc6Command>(a, c);
        x ^= create::<SbpCommand>(a, c);
    }
    x ^= nec::<NecCommand>(b, rep) ^ nec::<Nec16Command>(b, rep) ^ nec::<SamsungNecCommand>(b, rep);
    x ^= nec::<AppleNecCommand>(b, rep) ^ nec::<NecDebugCmd>(b, rep);
    let d = any_struct(s, P::Nec);
    x ^= u64::from(dut::nec(&d).pack() ^ dut::nec16(&d).pack() ^ dut::samsung(&d).pack() ^ dut::apple(&d).pack());
    x ^= use_any(dut::nec(&d)) ^ use_any(dut::samsung(&d)) ^ use_any(dut::apple(&d));
    x ^= use_any(dut::rc5(&d)) ^ use_any(dut::rc6(&d));
    x ^= u64::from(dut::rc5(&d).pack());
    x ^= u64::from(Rc5Command::unpack(b as u16).pack());
    x ^= use_any(Rc5Command::new(b as u8, (b >> 8) as u8, rep));
    x ^= use_any(Rc6Command::from_bits(b as u16, rep)) ^ use_any(Rc6Command::new(b as u8, (b >> 8) as u8));
    x ^= use_any(SbpCommand::unpack(b as u16, (b >> 16) as u32));
    {
        let y: AnyCommand = DenonCommand { bits: b }.into();
        x ^= y.raw;
    }
    let act = [
        SamsungTv::decode(&dut::samsung(&d)).is_some(),
        SpecialForMp3::decode(&dut::nec(&d)).is_some(),
        Apple2009::decode(&dut::apple(&d)).is_some(),
        CdPlayer::decode(&dut::rc5(&d)).is_some(),
        SamsungBluRayPlayer::decode(&SbpCommand::unpack(b as u16, (b >> 16) as u32)).is_some(),
    ];
    ctx.inner += (x & 1) + act.len() as u64;
    Ok(())
}

fn c06_multi(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let t = crate::laws::multi::table();
    let e = s.pick(t);
    let f = if e.mono == Mono::F32 || e.mono == Mono::F64 { 1_000_000 } else { any_rate(s) };
    let p = *s.pick(e.protos);
    let edges = any_edges(s, p, e.mono, f, ctx);
    ctx.nontrivial = !edges.is_empty();
    ctx.sample(|| format!("{:?} {:?}@{}: {}", e.protos, e.mono, f, show(&edges)));
    let r = (e.run)(f, s.below(4), &edges);
    ensure!(r.len() == edges.len(), "{} results for {} edges", r.len(), edges.len());
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C07

/// Keep the edges whose running sum is a time that the clock can show.
fn fit(edges: &mut Vec<Edge>, m: Mono) {
    let mut t = 0u64;
    let mut n = 0;
    for e in edges.iter() {
        match t.checked_add(e.dt) {
            Some(x) if x <= m.max() && (m != Mono::F32 || e.dt < 1 << 31) && (m != Mono::F64 || e.dt < 1 << 63) => t = x,
            _ => break,
        }
        n += 1;
    }
    edges.truncate(n);
}

/// A clock at which all front ends are instantiated.
fn full_clock(s: &mut Src) -> (Mono, u32) {
    let m = *s.pick(&dut::MONOS);
    match m {
        Mono::U32 | Mono::U64 => (m, hist::rate(s)),
        _ => (m, *s.pick(&[1_000_000, 64_000])),
    }
}

fn first_diff(a: &[Res], b: &[Res]) -> String {
    match (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)) {
        Some(i) => format!("edge {}: {:?} and {:?}", i, a.get(i), b.get(i)),
        None => "equal".into(),
    }
}

/// One use of a buffer receiver's iterator.
#[derive(Clone, Copy, Debug)]
enum Use {
    Next,
    Nth(usize),
    Take(usize),
    Hint,
    /// the rest, by ...
    Count,
    Last,
    Fold,
    Collect,
    StepBy(usize),
    Skip(usize),
    Peek,
    Zip,
    Filter,
}

/// Use the iterator over `v` in the given way; the same with the list of commands is the model.
fn use_iter<I: Iterator<Item = Dec>, J: Iterator<Item = Dec>>(mut a: I, mut b: J, left: usize, uses: &[Use]) -> Outcome {
    let mut left = left;
    // guards against an iterator without end
    let cap = left + 3;
    for (k, u) in uses.iter().enumerate() {
        match *u {
            Use::Next => {
                if left == 0 {
                    return Ok(());
                }
                let (x, y) = (a.next(), b.next());
                left -= 1;
                ensure!(x == y, "use {} ({:?}) gives {:?}, expected {:?}", k, u, x, y);
            }
            Use::Nth(n) => {
                let (x, y) = (a.nth(n), b.nth(n));
                ensure!(x == y, "use {} ({:?}) gives {:?}, expected {:?}", k, u, x, y);
                if left <= n {
                    return Ok(());
                }
                left -= n + 1;
            }
            Use::Take(n) => {
                let n = n.min(left);
                let (x, y): (Vec<_>, Vec<_>) = (a.by_ref().take(n).collect(), b.by_ref().take(n).collect());
                ensure!(x == y, "use {} ({:?}) gives {:?}, expected {:?}", k, u, x, y);
                left -= n;
            }
            Use::Hint => {
                let (lo, hi) = a.size_hint();
                ensure!(lo <= left && hi.is_none_or(|h| h >= left), "use {}: size_hint {:?}, but {} are left", k, (lo, hi), left);
            }
            Use::Count => {
                let n = a.take(cap).count();
                ensure!(n == left, "use {} ({:?}) gives {}, expected {}", k, u, n, left);
                return Ok(());
            }
            Use::Last => {
                let (x, y) = (a.take(cap).last(), b.last());
                ensure!(x == y, "use {} ({:?}) gives {:?}, expected {:?}", k, u, x, y);
                return Ok(());
            }
            Use::Fold => {
                let mut n = 0;
                let mut x = vec![];
                a.try_for_each(|d| {
                    x.push(d);
                    n += 1;
                    if n > cap { None } else { Some(()) }
                });
                let y = b.fold(vec![], |mut v, d| {
                    v.push(d);
                    v
                });
                ensure!(x == y, "use {} ({:?}) gives {:?}, expected {:?}", k, u, x, y);
                return Ok(());
            }
            Use::Collect => {
                let (x, y): (Vec<_>, Vec<_>) = (a.take(cap).collect(), b.collect());
                ensure!(x == y, "use {} ({:?}) gives {:?}, expected {:?}", k, u, x, y);
                return Ok(());
            }
            Use::StepBy(n) => {
                let (x, y): (Vec<_>, Vec<_>) = (a.step_by(n).take(cap).collect(), b.step_by(n).collect());
                ensure!(x == y, "use {} ({:?}) gives {:?}, expected {:?}", k, u, x, y);
                return Ok(());
            }
            Use::Skip(n) => {
                let (x, y): (Vec<_>, Vec<_>) = (a.skip(n).take(cap).collect(), b.skip(n).collect());
                ensure!(x == y, "use {} ({:?}) gives {:?}, expected {:?}", k, u, x, y);
                return Ok(());
            }
            Use::Peek => {
                let (mut x, mut y) = (a.peekable(), b.peekable());
                let (p, q) = (x.peek().copied(), y.peek().copied());
                let (x, y): (Vec<_>, Vec<_>) = (x.take(cap).collect(), y.collect());
                ensure!(p == q && x == y, "use {} ({:?}) gives {:?} {:?}, expected {:?} {:?}", k, u, p, x, q, y);
                return Ok(());
            }
            Use::Zip => {
                let (x, y): (Vec<_>, Vec<_>) = ((0..cap).zip(a).collect(), (0..cap).zip(b).collect());
                ensure!(x == y, "use {} ({:?}) gives {:?}, expected {:?}", k, u, x, y);
                return Ok(());
            }
            Use::Filter => {
                let (x, y): (Vec<_>, Vec<_>) = (a.take(cap).filter(|d| d.a & 1 == 0).collect(), b.filter(|d| d.a & 1 == 0).collect());
                ensure!(x == y, "use {} ({:?}) gives {:?}, expected {:?}", k, u, x, y);
                return Ok(());
            }
        }
    }
    Ok(())
}

/// A buffer receiver's iterator gives its commands however it is used, and again for the next buffer.
fn c07_iterator(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    fn case<Pr>(f: u32, bufs: &[(Vec<u32>, Vec<Dec>)], plan: &[(usize, bool, Vec<Use>)]) -> Outcome
    where
        Pr: DecoderBuilder<u32>,
        Dec: From<Pr::Cmd>,
    {
        let mut r: BufferInputReceiver<Pr, u32, Dec> = BufferInputReceiver::with_frequenzy(f);
        for (n, (i, with, uses)) in plan.iter().enumerate() {
            let (v, want) = &bufs[*i];
            let model = want.iter().copied();
            if *with {
                use_iter(r.iter_with::<Pr, u32, Dec>(f, v), model, want.len(), uses)
            } else {
                use_iter(r.iter(v), model, want.len(), uses)
            }
            .map_err(|e| format!("iterator {} over {:?}, used like {:?}: {}", n, v, uses, e))?;
        }
        Ok(())
    }
    let p = *s.pick(&ALL);
    let f = hist::rate(s);
    let wins = Wins::new(p.fam(), f);
    let max = u32::MAX as u64;
    let cfg = Cfg { segs: 2, ..Cfg::alternating(max) };
    let bufs: Vec<(Vec<u32>, Vec<Dec>)> = (0..s.range(1, 3))
        .map(|_| {
            let mut w = Wire::new(f);
            for _ in 0..s.below(6) {
                if s.chance(1, 4) {
                    hist::segment(s, p, &mut w, &cfg, ctx);
                }
                hist::gap_then_rise(s, &mut w, &Cfg::alternating(max));
                if p.is_nec() && s.chance(1, 3) {
                    let (v, _) = repeat_code(s, &wins, Jit::Full);
                    w.pulses(&v);
                } else {
                    let bits = any_bits(p, s);
                    let (v, _) = frame(s, &wins, bits, Jit::Full);
                    w.pulses(&v);
                }
            }
            let want = cmds(&dut::run(p, Mono::U32, Front::Event, f, &w.edges)).into_iter().map(|x| x.1).collect();
            (w.edges.iter().map(|e| e.dt as u32).collect(), want)
        })
        .collect();
    let plan: Vec<(usize, bool, Vec<Use>)> = (0..s.range(1, 5))
        .map(|_| {
            let i = s.below(bufs.len() as u64) as usize;
            let with = s.bool();
            let mut v = vec![];
            for _ in 0..s.below(6) {
                v.push(match s.below(4) {
                    0 => Use::Next,
                    1 => Use::Nth(s.below(3) as usize),
                    2 => Use::Take(s.below(3) as usize),
                    _ => Use::Hint,
                });
            }
            v.push(match s.below(9) {
                0 => Use::Count,
                1 => Use::Last,
                2 => Use::Fold,
                3 => Use::StepBy(s.range(1, 3) as usize),
                4 => Use::Skip(s.below(4) as usize),
                5 => Use::Peek,
                6 => Use::Zip,
                7 => Use::Filter,
                _ => Use::Collect,
            });
            (i, with, v)
        })
        .collect();
    ctx.nontrivial = bufs.iter().any(|b| b.1.len() > 1);
    ctx.label(label(p));
    ctx.sample(|| format!("{:?}@{} buffers of {:?} commands, {:?}", p, f, bufs.iter().map(|b| b.1.len()).collect::<Vec<_>>(), plan));
    by_proto!(p, T => case::<T>(f, &bufs, &plan)).map_err(|e| format!("{:?}@{} Hz: {}", p, f, e))
}

fn c07_fronts(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let (m, f) = full_clock(s);
    let alt = s.bool();
    // times that fit the clock even when added up
    let max = match m {
        Mono::U32 | Mono::F32 => (to_ticks(IDLE_US, f) + 10).max(1 << 24),
        _ => 1 << 50,
    };
    let cfg = if alt { Cfg::alternating(max) } else { Cfg::wild(max) };
    let mut w = history(s, p, f, &cfg, ctx);
    fit(&mut w.edges, m);
    ctx.label(label(p));
    ctx.sample(|| format!("{:?} {:?}@{}: {}", p, m, f, show(&w.edges)));
    let base = dut::run(p, m, Front::Event, f, &w.edges);
    ctx.nontrivial = base.iter().any(|r| *r != Ok(None));
    for fr in FRONTS {
        let r = dut::run(p, m, fr, f, &w.edges);
        ensure!(r == base, "{:?} {:?}@{} Hz: Event and {:?} differ at {}: {}", p, m, f, fr, first_diff(&base, &r), show(&w.edges));
    }
    // a buffer's edges alternate
    if w.edges.iter().enumerate().all(|(i, e)| e.rising == (i % 2 == 0)) {
        let dts: Vec<u64> = w.edges.iter().map(|e| e.dt).collect();
        let want: Vec<Dec> = cmds(&base).into_iter().map(|x| x.1).collect();
        if m == Mono::U32 || m == Mono::U64 || f == 1_000_000 {
            ctx.label("buffer");
            for how in [Buf::Freq, Buf::IterWith] {
                let got = dut::buffer(p, m, how, f, &dts);
                ensure!(got == want, "{:?} {:?}@{} Hz: {:?} from events, {:?} from the buffer ({:?}): {:?}", p, m, f, want, got, how, dts);
            }
        }
    }
    Ok(())
}

fn c07_polled(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let f = *s.pick(&[40_000u32, 44_100, 50_000, 64_000, 100_000]);
    let w = history(s, p, f, &Cfg::polled(f), ctx);
    let mut e = w.edges;
    for x in &mut e {
        x.dt = x.dt.max(1);
    }
    ctx.label(label(p));
    ctx.sample(|| format!("{:?} at {}: {}", p, f, show(&e)));
    let base = dut::run(p, Mono::U32, Front::Event, f, &e);
    ctx.nontrivial = base.iter().any(|r| *r != Ok(None));
    for pin in [false, true] {
        match dut::polled(p, pin, f, &e) {
            None => return Err(format!("{:?} polled at {} Hz reports something while the line does not change: {}", p, f, show(&e))),
            Some(r) => ensure!(r == base, "{:?} at {} Hz: events and polling (pin: {}) differ at {}: {}", p, f, pin, first_diff(&base, &r), show(&e)),
        }
    }
    Ok(())
}

// A decoder that a user could have written: its answers are an arbitrary function of all edges since
// the last reset, of the rate and of how often it was reset.
pub struct Scripted;
impl Protocol for Scripted {
    type Cmd = u64;
}
pub struct ScriptedDecoder<M: Ticks> {
    h: u64,
    resets: u64,
    spans: PulseSpans<M>,
}
fn mix(a: u64, b: u64) -> u64 {
    let mut h = DefaultHasher::new();
    (a, b).hash(&mut h);
    h.finish()
}
fn script_state(h: u64) -> State {
    match h % 16 {
        0..=2 => State::Done,
        3 => State::Error(DecodingError::Address),
        4 => State::Error(DecodingError::Data),
        5 => State::Error(DecodingError::Validation),
        6 => State::Error(DecodingError::RemoteControlError),
        7 => State::Idle,
        _ => State::Receiving,
    }
}
fn script_cmd(h: u64) -> Option<u64> {
    // done without a command happens, too (Apple)
    (matches!(script_state(h), State::Done) && h >> 8 & 3 != 0).then_some(h)
}
impl<M: Ticks> DecoderBuilder<M> for Scripted {
    type Decoder = ScriptedDecoder<M>;
    fn build(freq: u32) -> Self::Decoder {
        ScriptedDecoder { h: u64::from(freq), resets: u64::from(freq), spans: PulseSpans::new(1000, &[0; 8], &[0; 8]) }
    }
}
impl<M: Ticks> ProtocolDecoder<Scripted, M> for ScriptedDecoder<M> {
    fn event(&mut self, edge: bool, dt: M::Duration) -> State {
        self.h = mix(self.h, M::raw(dt) << 1 ^ edge as u64);
        script_state(self.h)
    }
    fn command(&self) -> Option<u64> {
        script_cmd(self.h)
    }
    fn reset(&mut self) {
        self.resets = mix(self.resets, 77);
        self.h = self.resets;
    }
    fn spans(&self) -> &PulseSpans<M> {
        &self.spans
    }
}
pub fn script_model(f: u32, edges: &[Edge]) -> Vec<Result<Option<u64>, DecodingError>> {
    let mut h = u64::from(f);
    let mut resets = h;
    edges
        .iter()
        .map(|e| {
            h = mix(h, e.dt << 1 ^ e.rising as u64);
            let r = match script_state(h) {
                State::Done => Ok(script_cmd(h)),
                State::Error(x) => Err(x),
                _ => return Ok(None),
            };
            resets = mix(resets, 77);
            h = resets;
            r
        })
        .collect()
}

fn scripted_run<M: Ticks>(front: u64, f: u32, edges: &[Edge]) -> Vec<Result<Option<u64>, DecodingError>> {
    let mut out = vec![];
    let pin = TestPin::new();
    let on = pin.on.clone();
    let through = |r: Result<Option<u64>, infrared::receiver::Error<u32>>| match r {
        Ok(x) => Ok(x),
        Err(infrared::receiver::Error::Address) => Err(DecodingError::Address),
        Err(infrared::receiver::Error::Data) => Err(DecodingError::Data),
        Err(infrared::receiver::Error::Validation) => Err(DecodingError::Validation),
        Err(infrared::receiver::Error::RemoteControlError) => Err(DecodingError::RemoteControlError),
        Err(infrared::receiver::Error::Hal(_)) => Ok(Some(0)),
    };
    match front {
        0 => {
            let mut r: Receiver<Scripted, NoPin, M> = Receiver::new(f);
            for e in edges {
                out.push(r.event(M::dur(e.dt), e.rising));
            }
        }
        1 => {
            let mut r: Receiver<Scripted, u8, M> = Receiver::with_input(f, 1);
            for e in edges {
                out.push(r.event_edge(M::dur(e.dt), e.rising));
            }
        }
        2 => {
            let mut r: Receiver<Scripted, NoPin, M> = Receiver::new(f);
            let mut t = 0;
            for e in edges {
                t += e.dt;
                out.push(r.event_instant(M::inst(t), e.rising));
            }
        }
        3 => {
            let mut r: Receiver<Scripted, TestPin, M> = Receiver::with_pin(f, pin);
            for e in edges {
                on.set(e.rising);
                out.push(through(r.event(M::dur(e.dt))));
            }
        }
        4 => {
            let mut r: Receiver<Scripted, TestPin, M> = Receiver::with_pin(f, pin);
            let mut t = 0;
            for e in edges {
                t += e.dt;
                on.set(e.rising);
                out.push(through(r.event_instant(M::inst(t))));
            }
        }
        5 => {
            let mut r = infrared::receiver().monotonic::<M>().protocol::<Scripted>().frequency(f).build();
            for e in edges {
                out.push(r.event(M::dur(e.dt), e.rising));
            }
        }
        _ => {
            let mut d = <Scripted as DecoderBuilder<M>>::build(f);
            for e in edges {
                out.push(d.event_total(e.rising, M::dur(e.dt)));
            }
        }
    }
    out
}

fn scripted_buffer<M: Ticks>(how: u64, f: u32, dts: &[u64]) -> Vec<u64> {
    let v: Vec<M::Duration> = dts.iter().map(|d| M::dur(*d)).collect();
    let cap = v.len() + 2;
    if how == 0 {
        let mut r: BufferInputReceiver<Scripted, M> = BufferInputReceiver::with_frequenzy(f);
        let x = r.iter(&v).take(cap).collect();
        x
    } else {
        let mut r: BufferInputReceiver<Scripted, M> = BufferInputReceiver::new();
        let x = r.iter_with::<Scripted, M, u64>(f, &v).take(cap).collect();
        x
    }
}

fn c07_user_decoder(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let m = *s.pick(&dut::MONOS);
    let f = if matches!(m, Mono::U32 | Mono::U64) { s.log(u32::MAX as u64) as u32 } else { 1_000_000 };
    let alt = s.bool();
    let n = s.range(1, 60);
    let edges: Vec<Edge> = (0..n)
        .map(|i| Edge { rising: if alt { i % 2 == 0 } else { s.bool() }, dt: s.below(1 << 20) })
        .collect();
    let want = script_model(f, &edges);
    ctx.nontrivial = want.iter().any(|r| *r != Ok(None));
    ctx.sample(|| format!("{:?}@{}: {}", m, f, show(&edges)));
    let go = |front: u64| match m {
        Mono::U32 => scripted_run::<u32>(front, f, &edges),
        Mono::U64 => scripted_run::<u64>(front, f, &edges),
        Mono::F32 => scripted_run::<fugit::Instant<u32, 1, 1_000_000>>(front, f, &edges),
        Mono::F64 => scripted_run::<fugit::Instant<u64, 1, 1_000_000>>(front, f, &edges),
    };
    for front in 0..7 {
        let got = go(front);
        ensure!(got == want, "user-defined decoder, {:?}@{} Hz, front end {}: {:x?}, expected {:x?}: {}", m, f, front, got, want, show(&edges));
    }
    if alt {
        let dts: Vec<u64> = edges.iter().map(|e| e.dt).collect();
        let w: Vec<u64> = want.iter().filter_map(|r| r.as_ref().ok().copied().flatten()).collect();
        for how in 0..2 {
            let got = match m {
                Mono::U32 => scripted_buffer::<u32>(how, f, &dts),
                Mono::U64 => scripted_buffer::<u64>(how, f, &dts),
                Mono::F32 => scripted_buffer::<fugit::Instant<u32, 1, 1_000_000>>(how, f, &dts),
                Mono::F64 => scripted_buffer::<fugit::Instant<u64, 1, 1_000_000>>(how, f, &dts),
            };
            ensure!(got == w, "user-defined decoder, {:?}@{} Hz, buffer {}: {:x?}, expected {:x?}: {:?}", m, f, how, got, w, dts);
        }
    }
    Ok(())
}

fn c07_user_polled(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let f = s.log(u32::MAX as u64) as u32;
    let edges: Vec<Edge> = (0..s.range(1, 40)).map(|i| Edge { rising: i % 2 == 0, dt: s.range(1, 200) }).collect();
    let want = script_model(f, &edges);
    ctx.nontrivial = want.iter().any(|r| *r != Ok(None));
    ctx.sample(|| format!("at {}: {}", f, show(&edges)));
    let pin = TestPin::new();
    let on = pin.on.clone();
    let mut a: PeriodicPoll<Scripted> = PeriodicPoll::new(f);
    let mut b: PeriodicPoll<Scripted, TestPin> = PeriodicPoll::with_pin(f, pin);
    let mut c = infrared::receiver().frequency(f).protocol::<Scripted>().build_polled();
    let mut level = false;
    let mut got = vec![];
    for e in &edges {
        for k in 0..e.dt {
            if k + 1 == e.dt {
                level = e.rising;
            }
            on.set(level);
            let x = a.poll(level);
            let y = b.poll().map_err(|e| format!("{:?}", e));
            let z = c.poll(level);
            ensure!(
                x == z && x.map_err(|e| format!("{:?}", e)) == y,
                "polled user-defined decoder: {:?} without pin, {:?} with pin, {:?} from the builder",
                x,
                y,
                z
            );
            if k + 1 == e.dt {
                got.push(x);
            } else {
                ensure!(x == Ok(None), "polling reports {:?} while the line does not change", x);
            }
        }
    }
    ensure!(got == want, "polled user-defined decoder: {:x?}, expected {:x?}: {}", got, want, show(&edges));
    Ok(())
}

macro_rules! chain {
    ($b:expr, $f:expr, $pin:expr, $P:ty, $M:ty;) => { $b };
    ($b:expr, $f:expr, $pin:expr, $P:ty, $M:ty; F $($r:ident)*) => { chain!($b.frequency($f), $f, $pin, $P, $M; $($r)*) };
    ($b:expr, $f:expr, $pin:expr, $P:ty, $M:ty; W $($r:ident)*) => { chain!($b.frequency(12_345), $f, $pin, $P, $M; $($r)*) };
    ($b:expr, $f:expr, $pin:expr, $P:ty, $M:ty; P $($r:ident)*) => { chain!($b.protocol::<$P>(), $f, $pin, $P, $M; $($r)*) };
    ($b:expr, $f:expr, $pin:expr, $P:ty, $M:ty; Q $($r:ident)*) => { chain!($b.protocol::<infrared::protocol::Denon>(), $f, $pin, $P, $M; $($r)*) };
    ($b:expr, $f:expr, $pin:expr, $P:ty, $M:ty; N $($r:ident)*) => { chain!($b.pin($pin), $f, $pin, $P, $M; $($r)*) };
    ($b:expr, $f:expr, $pin:expr, $P:ty, $M:ty; M $($r:ident)*) => { chain!($b.monotonic::<$M>(), $f, $pin, $P, $M; $($r)*) };
    ($b:expr, $f:expr, $pin:expr, $P:ty, $M:ty; R $($r:ident)*) => { chain!($b.remotecontrol(<Rc as Default>::default()), $f, $pin, $P, $M; $($r)*) };
}

type Raw<Pr> = Vec<Result<Option<<Pr as Protocol>::Cmd>, DecodingError>>;

fn conv<C>(r: Vec<Result<Option<C>, DecodingError>>) -> Vec<Res>
where
    Dec: From<C>,
{
    r.into_iter().map(|x| x.map(|c| c.map(Into::into))).collect()
}

/// With pin: order 0..24 (all orders of the four calls), then with overridden values.
fn built_pin<Pr, M>(order: u64, f: u32, edges: &[Edge]) -> Vec<Res>
where
    M: Ticks,
    Pr: DecoderBuilder<M> + DecoderBuilder<u32>,
    Dec: From<<Pr as Protocol>::Cmd>,
{
    let pin = TestPin::new();
    let on = pin.on.clone();
    macro_rules! go {
        ($($o:ident)*) => {{
            let mut r: Receiver<Pr, TestPin, M> = chain!(infrared::receiver(), f, pin, Pr, M; $($o)*).build();
            edges.iter().map(|e| { on.set(e.rising); match pinres(r.event(M::dur(e.dt)).map(|c| c.map(Into::into))) {
                PinRes::Res(x) => x,
                PinRes::Hal(_) => Err(DecodingError::RemoteControlError),
            } }).collect()
        }};
    }
    match order {
        0 => go!(F P N M),
        1 => go!(F P M N),
        2 => go!(F N P M),
        3 => go!(F N M P),
        4 => go!(F M P N),
        5 => go!(F M N P),
        6 => go!(P F N M),
        7 => go!(P F M N),
        8 => go!(P N F M),
        9 => go!(P N M F),
        10 => go!(P M F N),
        11 => go!(P M N F),
        12 => go!(N F P M),
        13 => go!(N F M P),
        14 => go!(N P F M),
        15 => go!(N P M F),
        16 => go!(N M F P),
        17 => go!(N M P F),
        18 => go!(M F P N),
        19 => go!(M F N P),
        20 => go!(M P F N),
        21 => go!(M P N F),
        22 => go!(M N F P),
        23 => go!(M N P F),
        24 => go!(W F Q N M P),
        25 => go!(Q W M N P F),
        26 => go!(M N W P F),
        _ => {
            // the receiver's own constructors
            let mut r: Receiver<Pr, TestPin, M, Dec> = Receiver::with_input(f, pin);
            edges
                .iter()
                .map(|e| {
                    on.set(e.rising);
                    match pinres(r.event(M::dur(e.dt))) {
                        PinRes::Res(x) => x,
                        PinRes::Hal(_) => Err(DecodingError::RemoteControlError),
                    }
                })
                .collect()
        }
    }
}

/// Without pin: the protocol shorthands.
fn built_short<M: Ticks>(p: P, order: u64, f: u32, edges: &[Edge]) -> Vec<Res> {
    macro_rules! go {
        ($m:ident, $t:ty) => {{
            let r: Raw<$t> = match order % 3 {
                0 => {
                    let mut r = infrared::receiver().$m().monotonic::<M>().frequency(f).build();
                    edges.iter().map(|e| r.event(M::dur(e.dt), e.rising)).collect()
                }
                1 => {
                    let mut r = infrared::receiver().frequency(f).monotonic::<M>().$m().build();
                    edges.iter().map(|e| r.event(M::dur(e.dt), e.rising)).collect()
                }
                _ => {
                    let mut r = infrared::receiver().monotonic::<M>().frequency(f).$m().build();
                    edges.iter().map(|e| r.event(M::dur(e.dt), e.rising)).collect()
                }
            };
            conv(r)
        }};
    }
    match p {
        P::Nec => go!(nec, infrared::protocol::Nec),
        P::Nec16 => go!(nec16, infrared::protocol::Nec16),
        P::Samsung => go!(nec_samsung, infrared::protocol::SamsungNec),
        P::Apple => go!(nec_apple, infrared::protocol::AppleNec),
        P::Rc5 => go!(rc5, infrared::protocol::Rc5),
        P::Rc6 => go!(rc6, infrared::protocol::Rc6),
        P::Sbp => go!(samsung_bluray, infrared::protocol::Sbp),
        P::Denon => go!(denon, infrared::protocol::Denon),
        P::Debug => {
            let mut r = infrared::receiver()
                .protocol::<infrared::protocol::NecDebug>()
                .monotonic::<M>()
                .frequency(f)
                .build();
            conv(edges.iter().map(|e| r.event(M::dur(e.dt), e.rising)).collect())
        }
    }
}

/// No frequency given: 1 MHz.
fn built_default<Pr>(how: u64, edges: &[Edge]) -> Vec<Res>
where
    Pr: DecoderBuilder<u32>,
    Dec: From<<Pr as Protocol>::Cmd>,
{
    let mut r = if how == 0 {
        infrared::receiver().protocol::<Pr>().build()
    } else {
        infrared::receiver::Builder::default().protocol::<Pr>().build()
    };
    conv(edges.iter().map(|e| r.event(e.dt as u32, e.rising)).collect())
}
fn buffer_default<Pr>(how: u64, dts: &[u32]) -> Vec<Dec>
where
    Pr: DecoderBuilder<u32>,
    Dec: From<<Pr as Protocol>::Cmd>,
{
    let mut r: BufferInputReceiver<Pr, u32, Dec> = if how == 0 { BufferInputReceiver::new() } else { Default::default() };
    let x = r.iter(dts).take(dts.len() + 2).collect();
    x
}

fn with_fugit<Pr, const HZ: u32>(wide: bool, instant: bool, edges: &[Edge]) -> Vec<Res>
where
    Pr: DecoderBuilder<fugit::TimerInstantU32<HZ>> + DecoderBuilder<fugit::TimerInstantU64<HZ>>,
    Dec: From<<Pr as Protocol>::Cmd>,
{
    let pin = TestPin::new();
    let on = pin.on.clone();
    let un = |x: PinRes| match x {
        PinRes::Res(x) => x,
        PinRes::Hal(_) => Err(DecodingError::RemoteControlError),
    };
    let mut t = 0u64;
    if wide {
        let mut r: Receiver<Pr, TestPin, fugit::TimerInstantU64<HZ>, Dec> = Receiver::with_fugit64(pin);
        edges
            .iter()
            .map(|e| {
                on.set(e.rising);
                t += e.dt;
                un(pinres(if instant {
                    r.event_instant(fugit::TimerInstantU64::<HZ>::from_ticks(t))
                } else {
                    r.event(fugit::TimerDurationU64::<HZ>::from_ticks(e.dt))
                }))
            })
            .collect()
    } else {
        let mut r: Receiver<Pr, TestPin, fugit::TimerInstantU32<HZ>, Dec> = Receiver::with_fugit(pin);
        edges
            .iter()
            .map(|e| {
                on.set(e.rising);
                t += e.dt;
                un(pinres(if instant {
                    r.event_instant(fugit::TimerInstantU32::<HZ>::from_ticks(t as u32))
                } else {
                    r.event(fugit::TimerDurationU32::<HZ>::from_ticks(e.dt as u32))
                }))
            })
            .collect()
    }
}

fn c07_builders(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let m = if s.bool() { Mono::U32 } else { Mono::U64 };
    let default_rate = s.chance(1, 4);
    let f = if default_rate { 1_000_000 } else { hist::rate(s) };
    let cfg = Cfg { segs: 3, ..Cfg::alternating(1 << 26) };
    let mut w = history(s, p, f, &cfg, ctx);
    // something that tells rates apart
    gap_then_rise(s, &mut w, &cfg);
    let wins = Wins::new(p.fam(), f);
    let bits = any_bits(p, s);
    let (v, _) = frame(s, &wins, bits, Jit::Full);
    w.pulses(&v);
    fit(&mut w.edges, m);
    let base = dut::run(p, m, Front::Event, f, &w.edges);
    ctx.nontrivial = base.iter().any(|r| *r != Ok(None));
    ctx.label(label(p));
    let check = |what: &str, r: Vec<Res>| -> Outcome {
        ensure!(r == base, "{:?} {:?}@{} Hz: Receiver::new and {} differ at {}: {}", p, m, f, what, first_diff(&base, &r), show(&w.edges));
        Ok(())
    };
    let order = s.below(28);
    let short = s.below(3);
    ctx.sample(|| format!("{:?} {:?}@{} order {} shorthand {}: {}", p, m, f, order, short, show(&w.edges)));
    let (a, b) = match m {
        Mono::U32 => (by_proto!(p, T => built_pin::<T, u32>(order, f, &w.edges)), built_short::<u32>(p, short, f, &w.edges)),
        _ => (by_proto!(p, T => built_pin::<T, u64>(order, f, &w.edges)), built_short::<u64>(p, short, f, &w.edges)),
    };
    check(&format!("builder order {}", order), a)?;
    check(&format!("protocol shorthand {}", short), b)?;
    if default_rate {
        ctx.label("default rate");
        for how in 0..2 {
            check("builder without frequency", by_proto!(p, T => built_default::<T>(how, &w.edges)))?;
            let e: Vec<u32> = w.edges.iter().map(|e| e.dt as u32).collect();
            let got = by_proto!(p, T => buffer_default::<T>(how, &e));
            let want: Vec<Dec> = cmds(&base).into_iter().map(|x| x.1).collect();
            ensure!(got == want, "{:?}: BufferInputReceiver without frequency reports {:?}, expected {:?}", p, got, want);
        }
        let wide = s.bool();
        let instant = s.bool();
        check(
            if wide { "with_fugit64" } else { "with_fugit" },
            by_proto!(p, T => with_fugit::<T, 1_000_000>(wide, instant, &w.edges)),
        )?;
    }
    Ok(())
}

/// Receivers with a remote-control model from the builder, event driven and polled: what they
/// report is the button for the command a plain receiver reports.
fn c07_built_remote(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    type But = Result<Option<(Dec, Option<Action>)>, DecodingError>;
    fn un<R>(r: Result<Option<Button<R>>, Error<u32>>, to: fn(&R::Cmd) -> Dec) -> But
    where
        R: RemoteControlModel,
    {
        match r {
            Ok(None) => Ok(None),
            Ok(Some(b)) => Ok(Some((to(b.command()), b.action()))),
            Err(Error::Address) => Err(DecodingError::Address),
            Err(Error::Validation) => Err(DecodingError::Validation),
            Err(Error::Data) => Err(DecodingError::Data),
            Err(_) => Err(DecodingError::RemoteControlError),
        }
    }
    /// what is due: from a plain receiver and the model
    fn plain<Pr, Rc>(f: u32, edges: &[Edge], to: fn(&Rc::Cmd) -> Dec) -> Vec<But>
    where
        Rc: RemoteControlModel,
        Pr: Protocol<Cmd = Rc::Cmd> + DecoderBuilder<u32>,
    {
        let mut r: Receiver<Pr> = Receiver::new(f);
        edges.iter().map(|e| r.event(e.dt as u32, e.rising).map(|c| c.map(|c| (to(&c), Rc::decode(&c))))).collect()
    }
    fn events<Pr, Rc, M>(order: u64, f: u32, edges: &[Edge], to: fn(&Rc::Cmd) -> Dec) -> Vec<But>
    where
        M: Ticks,
        Rc: RemoteControlModel,
        Pr: Protocol<Cmd = Rc::Cmd> + DecoderBuilder<M>,
    {
        let pin = TestPin::new();
        let on = pin.on.clone();
        macro_rules! go {
            ($($o:ident)*) => {{
                let mut r: Receiver<Pr, TestPin, M, Button<Rc>> = chain!(infrared::receiver(), f, pin, Pr, M; $($o)*).build();
                edges.iter().map(|e| { on.set(e.rising); un(r.event(M::dur(e.dt)), to) }).collect()
            }};
        }
        match order {
            0 => go!(F P N M R),
            1 => go!(F M P R N),
            2 => go!(P R F N M),
            3 => go!(P R M N F),
            4 => go!(F P R N M),
            5 => go!(N F M P R),
            6 => go!(M P F R N),
            7 => go!(P F R M N),
            8 => go!(N P R F M),
            9 => go!(M F P R N),
            10 => go!(W P F R M N),
            _ => go!(P N R M F),
        }
    }
    fn polls<Pr, Rc>(order: u64, f: u32, edges: &[Edge], to: fn(&Rc::Cmd) -> Dec) -> Vec<But>
    where
        Rc: RemoteControlModel,
        Pr: Protocol<Cmd = Rc::Cmd> + DecoderBuilder<u32>,
    {
        let pin = TestPin::new();
        let on = pin.on.clone();
        let mut level = false;
        let mut out = vec![];
        macro_rules! go {
            ($($o:ident)*) => {{
                let mut r: PeriodicPoll<Pr, TestPin, Button<Rc>> = chain!(infrared::receiver(), f, pin, Pr, u32; $($o)*).build_polled();
                for e in edges {
                    for k in 0..e.dt {
                        if k + 1 == e.dt {
                            level = e.rising;
                        }
                        on.set(level);
                        let x = un(r.poll(), to);
                        if k + 1 == e.dt || x != Ok(None) {
                            out.push(x);
                        }
                    }
                }
            }};
        }
        match order {
            0 => go!(F P N R),
            1 => go!(F P R N),
            2 => go!(P R F N),
            3 => go!(N P R F),
            4 => go!(P F R N),
            _ => go!(P R N F),
        }
        out
    }
    let polled = s.chance(1, 8);
    let which = s.below(5);
    let (p, t, addr): (P, &[(u32, Action)], u64) = match which {
        0 => (P::Samsung, SAMSUNG_TV, 7),
        1 => (P::Nec, MP3, 0),
        2 => (P::Rc5, CD_PLAYER, 20),
        3 => (P::Sbp, BLURAY, 32),
        _ => (P::Apple, APPLE, 0),
    };
    let f = if polled { s.range(40_000, 60_000) as u32 } else { hist::rate(s) };
    let wins = Wins::new(p.fam(), f);
    let mut w = Wire::new(f);
    let cfg = if polled { Cfg::polled(f) } else { Cfg { segs: 3, ..Cfg::alternating(1 << 26) } };
    if !polled {
        w = history(s, p, f, &cfg, ctx);
    }
    gap_then_rise(s, &mut w, &cfg);
    let code = if s.chance(1, 4) { s.bits(8) } else { s.pick(t).0 as u64 };
    let a = if s.chance(1, 4) { s.bits(5) } else { addr };
    let bits = match p {
        P::Samsung => a | a << 8 | (code & 0xff) << 16 | (!code & 0xff) << 24,
        P::Nec => a | (!a & 0xff) << 8 | (code & 0xff) << 16 | (!code & 0xff) << 24,
        P::Rc5 => (code & 0x3f) | a << 6 | s.below(2) << 11 | 3 << 12,
        P::Sbp => a | (code & 0xff) << 20 | (!code & 0xff) << 28,
        _ => apple_bits(code >> 8, code & 0x7f, s.bits(8)),
    };
    let (v, _) = frame(s, &wins, bits, Jit::Full);
    w.pulses(&v);
    if polled {
        for e in &mut w.edges {
            e.dt = e.dt.max(1);
        }
    } else {
        fit(&mut w.edges, Mono::U32);
    }
    let wide = s.bool();
    let order = s.below(if polled { 6 } else { 12 });
    macro_rules! go {
        ($Pr:ty, $R:ty, $to:expr) => {{
            let base = plain::<$Pr, $R>(f, &w.edges, $to);
            let got = if polled {
                polls::<$Pr, $R>(order, f, &w.edges, $to)
            } else if wide {
                events::<$Pr, $R, u64>(order, f, &w.edges, $to)
            } else {
                events::<$Pr, $R, u32>(order, f, &w.edges, $to)
            };
            (base, got)
        }};
    }
    let (base, got) = match which {
        0 => go!(infrared::protocol::SamsungNec, SamsungTv, |c| (*c).into()),
        1 => go!(infrared::protocol::Nec, SpecialForMp3, |c| (*c).into()),
        2 => go!(infrared::protocol::Rc5, CdPlayer, |c| (*c).into()),
        3 => go!(infrared::protocol::Sbp, SamsungBluRayPlayer, sbp_dec),
        _ => go!(infrared::protocol::AppleNec, Apple2009, |c| (*c).into()),
    };
    ctx.nontrivial = base.iter().any(|x| matches!(x, Ok(Some(_))));
    ctx.label(label(p));
    ctx.sample(|| format!("{:?}@{} remote {} polled {} order {}: {}", p, f, which, polled, order, show(&w.edges)));
    let d = (0..base.len().max(got.len())).find(|i| base.get(*i) != got.get(*i));
    ensure!(
        d.is_none(),
        "{:?}@{} Hz with remote, {} order {}: edge {:?} gives {:?}, expected {:?}: {}",
        p,
        f,
        if polled { "build_polled" } else { "build" },
        order,
        d,
        d.and_then(|i| got.get(i)),
        d.and_then(|i| base.get(i)),
        show(&w.edges)
    );
    Ok(())
}

fn c07_built_polled(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    fn go<Pr>(order: u64, f: u32, edges: &[Edge]) -> Vec<Res>
    where
        Pr: DecoderBuilder<u32> + DecoderBuilder<u64>,
        Dec: From<<Pr as Protocol>::Cmd>,
    {
        let pin = TestPin::new();
        let on = pin.on.clone();
        let mut level = false;
        let mut out = vec![];
        macro_rules! drive {
            ($r:ident, $nopin:literal) => {
                for e in edges {
                    for k in 0..e.dt {
                        if k + 1 == e.dt {
                            level = e.rising;
                        }
                        on.set(level);
                        let x: Res = match pinres($r.poll().map(|c| c.map(Into::into))) {
                            PinRes::Res(x) => x,
                            PinRes::Hal(_) => Err(DecodingError::RemoteControlError),
                        };
                        if k + 1 == e.dt || x != Ok(None) {
                            out.push(x);
                        }
                    }
                }
            };
        }
        match order {
            0 => {
                let mut r = infrared::receiver().pin(pin).frequency(f).protocol::<Pr>().build_polled();
                drive!(r, false)
            }
            1 => {
                let mut r = infrared::receiver().frequency(f).protocol::<Pr>().pin(pin).build_polled();
                drive!(r, false)
            }
            2 => {
                let mut r = infrared::receiver().monotonic::<u64>().protocol::<Pr>().pin(pin).frequency(f).build_polled();
                drive!(r, false)
            }
            _ => {
                let mut r = PeriodicPoll::<Pr, TestPin>::with_input(f, pin);
                drive!(r, false)
            }
        }
        out
    }
    let p = *s.pick(&ALL);
    let f = s.range(40_000, 60_000) as u32;
    let wins = Wins::new(p.fam(), f);
    let mut w = Wire::new(f);
    let t = s.range(1, 1000);
    w.push(t);
    let bits = any_bits(p, s);
    let (v, _) = frame(s, &wins, bits, Jit::Full);
    w.pulses(&v);
    for e in &mut w.edges {
        e.dt = e.dt.max(1);
    }
    let order = s.below(4);
    ctx.nontrivial = true;
    ctx.sample(|| format!("{:?} polled at {} order {}: {}", p, f, order, show(&w.edges)));
    let base = dut::run(p, Mono::U32, Front::Event, f, &w.edges);
    let got = by_proto!(p, T => go::<T>(order, f, &w.edges));
    ensure!(got == base, "{:?} built_polled order {} at {} Hz differs at {}: {}", p, order, f, first_diff(&base, &got), show(&w.edges));
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C19

/// Where reading the pin fails.
fn faults(s: &mut Src, n: usize) -> Vec<Option<u32>> {
    let one_in = *s.pick(&[2u64, 5, 20, 100]);
    let mut burst = 0;
    (0..n)
        .map(|_| {
            if burst == 0 && s.chance(1, one_in) {
                burst = if s.below(4) == 0 { s.range(1, 8) } else { 1 };
            }
            if burst > 0 {
                burst -= 1;
                Some(s.bits(32) as u32)
            } else {
                None
            }
        })
        .collect()
}

/// Pin that counts how often it was read and can be told apart.
fn faulty_run<Pr, M>(instant: bool, f: u32, calls: &[(Edge, Option<u32>)]) -> Vec<PinRes>
where
    M: Ticks,
    Pr: DecoderBuilder<M>,
    Dec: From<Pr::Cmd>,
{
    let pin = TestPin::new();
    let (on, fail) = (pin.on.clone(), pin.fail.clone());
    let mut r: Receiver<Pr, TestPin, M, Dec> = Receiver::with_pin(f, pin);
    let mut t = 0u64;
    calls
        .iter()
        .map(|(e, x)| {
            on.set(e.rising);
            fail.set(*x);
            if instant {
                // dt is relative to the last successful call
                let res = pinres(r.event_instant(M::inst(t + e.dt)));
                if x.is_none() {
                    t += e.dt;
                }
                res
            } else {
                pinres(r.event(M::dur(e.dt)))
            }
        })
        .collect()
}

fn c19_events(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let (m, f) = match s.below(4) {
        0 => (Mono::F32, 1_000_000),
        1 => (Mono::U64, hist::rate(s)),
        2 => (Mono::F64, 1_000_000),
        _ => (Mono::U32, hist::rate(s)),
    };
    let instant = s.bool();
    let max = if instant { (to_ticks(IDLE_US, f) + 10).max(1 << 24) } else { m.max() };
    let cfg = Cfg { segs: 4, ..if s.bool() { Cfg::wild(max) } else { Cfg::alternating(max) } };
    let mut w = history(s, p, f, &cfg, ctx);
    if instant {
        fit(&mut w.edges, m);
    }
    // interleave failing calls
    let mut calls: Vec<(Edge, Option<u32>)> = vec![];
    for e in &w.edges {
        let k = s.weighted(&[5, 2, 1]) as u64;
        for _ in 0..k {
            let mut x = *e;
            if s.bool() {
                x.rising = s.bool();
            }
            if s.bool() {
                // a failing call at another time than the one that succeeds
                x.dt = if instant { s.below(e.dt.max(1)) } else { s.log(max) };
            }
            let er = s.bits(32) as u32;
            calls.push((x, Some(er)));
        }
        calls.push((*e, None));
    }
    let nf = calls.iter().filter(|c| c.1.is_some()).count();
    let base = dut::run(p, m, Front::Event, f, &w.edges);
    ctx.nontrivial = nf > 0 && base.iter().any(|r| *r != Ok(None));
    ctx.label(label(p));
    ctx.sample(|| format!("{:?} {:?}@{} instants: {}, {} calls, {} fail: {}", p, m, f, instant, calls.len(), nf, show(&w.edges)));
    let got = match m {
        Mono::U32 => by_proto!(p, T => faulty_run::<T, u32>(instant, f, &calls)),
        Mono::U64 => by_proto!(p, T => faulty_run::<T, u64>(instant, f, &calls)),
        Mono::F32 => by_proto!(p, T => faulty_run::<T, fugit::Instant<u32, 1, 1_000_000>>(instant, f, &calls)),
        Mono::F64 => by_proto!(p, T => faulty_run::<T, fugit::Instant<u64, 1, 1_000_000>>(instant, f, &calls)),
    };
    let mut k = 0;
    for (i, (c, g)) in calls.iter().zip(&got).enumerate() {
        let want = match c.1 {
            Some(e) => PinRes::Hal(e),
            None => {
                k += 1;
                PinRes::Res(base[k - 1])
            }
        };
        ensure!(
            *g == want,
            "{:?} {:?}@{} Hz instants: {}: call {} gives {:?}, expected {:?} (failing pin reads in between): {:?}",
            p,
            m,
            f,
            instant,
            i,
            g,
            want,
            calls.iter().take(i + 1).map(|c| (c.0.rising, c.0.dt, c.1.is_some())).collect::<Vec<_>>()
        );
    }
    Ok(())
}

/// All kinds of error, from a decoder that produces them all.
fn c19_kinds(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let f = s.below(1 << 20) as u32;
    let edges: Vec<Edge> = (0..s.range(1, 60)).map(|_| Edge { rising: s.bool(), dt: s.below(1000) }).collect();
    let fl = faults(s, edges.len());
    let ok: Vec<Edge> = edges.iter().zip(&fl).filter(|x| x.1.is_none()).map(|x| *x.0).collect();
    let want = script_model(f, &ok);
    ctx.nontrivial = fl.iter().any(|x| x.is_some()) && want.iter().any(|x| x.is_err());
    ctx.sample(|| format!("{}", show(&edges)));
    let pin = TestPin::new();
    let (on, fail) = (pin.on.clone(), pin.fail.clone());
    let mut r: Receiver<Scripted, TestPin> = Receiver::with_pin(f, pin);
    let mut k = 0;
    for (e, x) in edges.iter().zip(&fl) {
        on.set(e.rising);
        fail.set(*x);
        let got = r.event(e.dt as u32);
        let exp = match x {
            Some(e) => Err(infrared::receiver::Error::Hal(*e)),
            None => {
                k += 1;
                match want[k - 1] {
                    Ok(c) => Ok(c),
                    Err(DecodingError::Address) => Err(infrared::receiver::Error::Address),
                    Err(DecodingError::Data) => Err(infrared::receiver::Error::Data),
                    Err(DecodingError::Validation) => Err(infrared::receiver::Error::Validation),
                    Err(DecodingError::RemoteControlError) => Err(infrared::receiver::Error::RemoteControlError),
                }
            }
        };
        ensure!(got == exp, "pin interface gives {:?}, expected {:?}", got, exp);
    }
    // the pin comes back
    let id = s.bits(32) as u32;
    fail.set(Some(id));
    ensure!(r.pin().fail.get() == Some(id), "pin() is not the receiver's pin");
    r.pin_mut().on.set(true);
    ensure!(on.get(), "pin_mut() is not the receiver's pin");
    let back = r.release();
    ensure!(
        std::rc::Rc::ptr_eq(&back.on, &on) && std::rc::Rc::ptr_eq(&back.fail, &fail),
        "release() gives back another pin"
    );
    Ok(())
}

fn c19_polled(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    fn go<Pr>(f: u32, calls: &[(bool, Option<u32>)]) -> Vec<PinRes>
    where
        Pr: DecoderBuilder<u32>,
        Dec: From<Pr::Cmd>,
    {
        let pin = TestPin::new();
        let (on, fail) = (pin.on.clone(), pin.fail.clone());
        let mut r: PeriodicPoll<Pr, TestPin, Dec> = PeriodicPoll::with_pin(f, pin);
        calls
            .iter()
            .map(|(l, x)| {
                on.set(*l);
                fail.set(*x);
                pinres(r.poll())
            })
            .collect()
    }
    let p = *s.pick(&ALL);
    let f = *s.pick(&[40_000u32, 50_000]);
    let cfg = Cfg { segs: 1, ..Cfg::polled(f) };
    let mut w = history(s, p, f, &cfg, ctx);
    gap_then_rise(s, &mut w, &cfg);
    let wins = Wins::new(p.fam(), f);
    let bits = any_bits(p, s);
    let (v, _) = frame(s, &wins, bits, Jit::Full);
    w.pulses(&v);
    let mut levels = vec![];
    let mut level = false;
    for e in &w.edges {
        for _ in 1..e.dt {
            levels.push(level);
        }
        level = e.rising;
        levels.push(level);
    }
    // failing polls at random points, more of them around edges
    let mut calls: Vec<(bool, Option<u32>)> = vec![];
    let per = *s.pick(&[0u64, 50, 400]);
    let mut prev = false;
    let mut rng = s.below(u64::MAX);
    for l in &levels {
        let near = *l != prev;
        prev = *l;
        let r = crate::engine::splitmix(&mut rng);
        let p = if near { 3 } else { per };
        if p > 0 && r % p == 0 {
            for _ in 0..1 + (r >> 40) % 3 {
                calls.push(((r >> 33) & 1 == 1, Some((r >> 8) as u32)));
            }
        }
        calls.push((*l, None));
    }
    let nf = calls.iter().filter(|c| c.1.is_some()).count();
    ctx.label(label(p));
    ctx.nontrivial = nf > 0;
    ctx.inner += calls.len() as u64;
    ctx.sample(|| format!("{:?} polled at {}: {} polls, {} fail: {}", p, f, calls.len(), nf, show(&w.edges)));
    let ok: Vec<(bool, Option<u32>)> = levels.iter().map(|l| (*l, None)).collect();
    let base = by_proto!(p, T => go::<T>(f, &ok));
    let got = by_proto!(p, T => go::<T>(f, &calls));
    let mut k = 0;
    for (i, c) in calls.iter().enumerate() {
        let want = match c.1 {
            Some(e) => PinRes::Hal(e),
            None => {
                k += 1;
                base[k - 1]
            }
        };
        ensure!(
            got[i] == want,
            "{:?} polled at {} Hz: poll {} gives {:?}, expected {:?}; {} failing polls before it, line: {}",
            p,
            f,
            i,
            got[i],
            want,
            calls[..i].iter().filter(|c| c.1.is_some()).count(),
            show(&w.edges)
        );
    }
    Ok(())
}

fn c19_multi(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let f = hist::rate(s);
    let p = *s.pick(&[P::Nec, P::Rc5, P::Samsung]);
    let cfg = Cfg::wild(u32::MAX as u64);
    let w = history(s, p, f, &cfg, ctx);
    let fl = faults(s, w.edges.len());
    ctx.nontrivial = fl.iter().any(|x| x.is_some());
    ctx.sample(|| format!("Nec+Rc5+Samsung@{}: {}", f, show(&w.edges)));
    type Tup = (infrared::protocol::Nec, infrared::protocol::Rc5, infrared::protocol::SamsungNec);
    let pin = TestPin::new();
    let (on, fail) = (pin.on.clone(), pin.fail.clone());
    let mut a = infrared::receiver::MultiReceiver::<3, Tup, TestPin>::new(f, pin);
    let mut b = infrared::receiver::MultiReceiver::<3, Tup, NoPin>::new(f, NoPin);
    let iter = s.bool();
    for (i, (e, x)) in w.edges.iter().zip(&fl).enumerate() {
        on.set(e.rising);
        fail.set(*x);
        let dt = e.dt as u32;
        let got: Result<Vec<_>, u32> = if iter {
            a.event_iter(dt).map(|it| it.map(crate::laws::codec::view).collect())
        } else {
            a.event(dt).map(|v| v.into_iter().flatten().map(crate::laws::codec::view).collect())
        };
        let want = match x {
            Some(e) => Err(*e),
            None => Ok(b.event_generic(dt, e.rising).into_iter().flatten().map(crate::laws::codec::view).collect()),
        };
        ensure!(got == want, "multi-receiver@{} Hz: call {} gives {:?}, expected {:?}: {} (failing: {:?})", f, i, got, want, show(&w.edges[..=i]), &fl[..=i]);
    }
    ensure!(std::rc::Rc::ptr_eq(&a.pin().on, &on), "pin() of a multi-receiver is another pin");
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C20

/// Really poll 2^32 times. The wrap falls somewhere into the frame.
fn c20_polled(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    fn go<Pr>(f: u32, lead: u64, edges: &[Edge]) -> (bool, Vec<Res>)
    where
        Pr: DecoderBuilder<u32>,
        Dec: From<Pr::Cmd>,
    {
        let mut r: PeriodicPoll<Pr, NoPin, Dec> = PeriodicPoll::new(f);
        let mut quiet = true;
        let mut k = 0;
        while k < lead {
            let n = (lead - k).min(1 << 24);
            for _ in 0..n {
                quiet &= matches!(r.poll(std::hint::black_box(false)), Ok(None));
            }
            k += n;
        }
        let mut out = vec![];
        let mut level = false;
        for e in edges {
            for _ in 1..e.dt {
                quiet &= r.poll(level) == Ok(None);
            }
            level = e.rising;
            out.push(r.poll(level));
        }
        (quiet, out)
    }
    let p = ALL[s.below(9) as usize];
    let f = *s.pick(&[40_000u32, 50_000]);
    let wins = Wins::new(p.fam(), f);
    let mut w = Wire::new(f);
    let mut want = vec![];
    let bits = wellformed_bits(p, s);
    let idle = to_ticks(IDLE_US, f) + 10;
    w.push(idle);
    let (v, done) = frame(s, &wins, bits, Jit::Full);
    w.pulses(&v);
    want.push((done + 1, expected(p, bits, false).unwrap()));
    // the counter wraps during this pulse
    let at = 1 + s.below(done as u64 + 1) as usize;
    let before: u64 = w.edges[..at].iter().map(|e| e.dt).sum();
    let off = s.below(w.edges[at].dt);
    let lead = (1u64 << 32) - before - off;
    let a2 = w.edges.len();
    let t = idle + s.below(1000);
    w.push(t);
    let bits2 = wellformed_bits(p, s);
    let (v, done) = frame(s, &wins, bits2, Jit::Full);
    w.pulses(&v);
    want.push((a2 + done + 1, expected(p, bits2, false).unwrap()));
    ctx.nontrivial = true;
    ctx.label(label(p));
    ctx.inner += lead;
    ctx.sample(|| format!("{:?} polled at {}, wrap in pulse {} of the frame {:#x}", p, f, at, bits));
    let (quiet, r) = by_proto!(p, T => go::<T>(f, lead, &w.edges));
    let got = cmds(&r);
    ensure!(quiet, "{:?} polled at {} Hz reports something while the line does not change", p, f);
    ensure!(got == want, "{:?} polled at {} Hz, {} quiet polls, then {}: {:?}, expected {:?}", p, f, lead, show(&w.edges), got, want);
    Ok(())
}

fn wrapped(edges: &[Edge], t0: u64, mask: u64) -> Vec<(bool, u64)> {
    let mut t = t0;
    edges
        .iter()
        .enumerate()
        .map(|(i, e)| {
            if i > 0 {
                t = t.wrapping_add(e.dt) & mask;
            }
            (e.rising, t)
        })
        .collect()
}

fn c20_fugit(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let f = *s.pick(&[64_000u32, 1_000_000]);
    let wins = Wins::new(p.fam(), f);
    let cfg = Cfg::alternating((1 << 31) - 1);
    let mut w = Wire::new(f);
    let mut want = vec![];
    let mut spans = vec![];
    for _ in 0..s.range(1, 3) {
        let at = gap_then_rise(s, &mut w, &cfg);
        let bits = any_bits(p, s);
        let (v, done) = frame(s, &wins, bits, Jit::Full);
        w.pulses(&v);
        spans.push((at, done));
        want.extend(expected(p, bits, false).map(|d| (at + done + 1, d)));
    }
    // the wrap falls into one of the frames (time since the first edge)
    let (at, done) = *s.pick(&spans);
    let k = at + 1 + s.below(done as u64 + 1) as usize;
    let before: u64 = w.edges[1..k].iter().map(|e| e.dt).sum();
    let off = s.below(w.edges[k].dt.max(1));
    let t0 = (1u64 << 32).wrapping_mul(64).wrapping_sub(before + off) & 0xffff_ffff;
    let inst = wrapped(&w.edges, t0, 0xffff_ffff);
    let pin = s.bool();
    ctx.nontrivial = !want.is_empty();
    ctx.label(label(p));
    ctx.sample(|| format!("{:?} fugit32@{} from {}: {}", p, f, t0, show(&w.edges)));
    let got = cmds(&dut::instants(p, Mono::F32, pin, f, &inst));
    ensure!(got == want, "{:?} fugit32@{} Hz, first edge at {}: {:?}, expected {:?}: {}", p, f, t0, got, want, show(&w.edges));
    Ok(())
}

/// Any history, 32-bit fugit timestamps that wrap against durations.
fn c20_fugit_hist(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let f = *s.pick(&[64_000u32, 1_000_000]);
    let cfg = Cfg::wild((1 << 31) - 1);
    let mut w = history(s, p, f, &cfg, ctx);
    for e in &mut w.edges {
        e.dt = e.dt.min((1 << 31) - 1);
    }
    let mut t = 0u64;
    let inst: Vec<(bool, u64)> = w
        .edges
        .iter()
        .map(|e| {
            t = (t + e.dt) & 0xffff_ffff;
            (e.rising, t)
        })
        .collect();
    let pin = s.bool();
    ctx.label(label(p));
    ctx.nontrivial = inst.windows(2).any(|x| x[1].1 < x[0].1);
    ctx.sample(|| format!("{:?} fugit32@{}: {}", p, f, show(&w.edges)));
    let base = dut::run(p, Mono::F32, Front::Event, f, &w.edges);
    let got = dut::instants(p, Mono::F32, pin, f, &inst);
    ensure!(got == base, "{:?} fugit32@{} Hz: durations and wrapping timestamps differ at {}: {}", p, f, first_diff(&base, &got), show(&w.edges));
    Ok(())
}

/// Backward timestamps with integer clocks are durations of zero; nothing is made up; the next frame is
/// received.
fn c20_backward(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let m = if s.bool() { Mono::U32 } else { Mono::U64 };
    let f = hist::rate(s);
    let wins = Wins::new(p.fam(), f);
    let cfg = Cfg::alternating((to_ticks(IDLE_US, f) + 10).max(1 << 20));
    let mut w = Wire::new(f);
    let mut jumps = vec![];
    for _ in 0..s.range(1, 4) {
        let at = gap_then_rise(s, &mut w, &cfg);
        let bits = any_bits(p, s);
        let (v, done) = frame(s, &wins, bits, Jit::Full);
        w.pulses(&v);
        if s.bool() {
            jumps.push(at + s.below(done as u64 + 2) as usize);
        }
    }
    let at = gap_then_rise(s, &mut w, &cfg);
    let bits = any_bits(p, s);
    let (v, done) = frame(s, &wins, bits, Jit::Full);
    w.pulses(&v);
    let total: u64 = w.edges.iter().map(|e| e.dt).sum();
    let wrap = s.bool() && total < m.max();
    // timestamps: either the counter wraps to zero, or it is set back by some amount
    let mut t = if wrap { m.max() - s.below(total.max(1)) } else { s.below(1 << 30) };
    let mut ts: Vec<(bool, u64)> = vec![];
    let mut back = 0;
    for (i, e) in w.edges.iter().enumerate() {
        t = t.wrapping_add(e.dt) & m.max();
        if !wrap && jumps.contains(&i) {
            t -= s.below(t.min(total.max(1)) + 1);
        }
        if ts.last().is_some_and(|l: &(bool, u64)| t < l.1) {
            back += 1;
        }
        ts.push((e.rising, t));
    }
    // what this means in durations
    let mut prev = 0u64;
    let edges: Vec<Edge> = ts
        .iter()
        .map(|(r, t)| {
            let dt = t.saturating_sub(prev);
            prev = *t;
            Edge { rising: *r, dt }
        })
        .collect();
    let pin = s.bool();
    ctx.nontrivial = back > 0;
    ctx.label(label(p));
    ctx.sample(|| format!("{:?} {:?}@{} {} backward steps: {:?}", p, m, f, back, ts));
    let got = dut::instants(p, m, pin, f, &ts);
    let base = dut::run(p, m, Front::Event, f, &edges);
    ensure!(got == base, "{:?} {:?}@{} Hz: timestamps {:?} do not give what durations {} give: {}", p, m, f, ts, show(&edges), first_diff(&base, &got));
    check_explained(p, f, &edges, &got, &mut Ctx::default())?;
    // the last frame, unless the clock stepped back after its gap began
    if (at..edges.len()).all(|i| edges[i].dt == w.edges[i].dt) {
        ctx.label("last frame undisturbed");
        let want: Vec<(usize, Dec)> = expected(p, bits, false).map(|d| (at + done + 1, d)).into_iter().collect();
        let tail: Vec<(usize, Dec)> = cmds(&got).into_iter().filter(|x| x.0 >= at).collect();
        ensure!(tail == want, "{:?} {:?}@{} Hz: after backward steps the next frame gives {:?}, expected {:?}: {:?}", p, m, f, tail, want, ts);
    }
    Ok(())
}

/// Any timestamps at all, integer clocks.
fn c20_any(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let m = if s.bool() { Mono::U32 } else { Mono::U64 };
    let f = hist::rate(s);
    let w = history(s, p, f, &Cfg::alternating(m.max()), ctx);
    let mut t = any_time(s, m);
    let back_one_in = *s.pick(&[2u64, 10, 50]);
    let mut prev = 0u64;
    let mut edges = vec![];
    let ts: Vec<(bool, u64)> = w
        .edges
        .iter()
        .map(|e| {
            t = if s.chance(1, back_one_in) { s.below(t.saturating_add(1)) } else { t.wrapping_add(e.dt) & m.max() };
            edges.push(Edge { rising: e.rising, dt: t.saturating_sub(prev) });
            prev = t;
            (e.rising, t)
        })
        .collect();
    ctx.nontrivial = ts.windows(2).any(|x| x[1].1 < x[0].1);
    ctx.label(label(p));
    ctx.sample(|| format!("{:?} {:?}@{}: {:?}", p, m, f, ts));
    let pin = s.bool();
    let got = dut::instants(p, m, pin, f, &ts);
    let base = dut::run(p, m, Front::Event, f, &edges);
    ensure!(got == base, "{:?} {:?}@{} Hz: timestamps {:?} do not give what durations {} give: {}", p, m, f, ts, show(&edges), first_diff(&base, &got));
    check_explained(p, f, &edges, &got, &mut Ctx::default())
}

#[allow(unused)]
fn unused(s: &mut Src) {
    let _ = clock(s);
}

pub fn laws() -> Vec<Law> {
    vec![
        Law { prop: "C06", name: "events", kind: Kind::Random(400_000, 12_000_000), rule: "any edges (not alternating, any times incl. 0 and maximal), any rate incl. 0, all clocks and front ends; non-trivial: at least one edge", run: c06_events },
        Law { prop: "C06", name: "instants", kind: Kind::Random(200_000, 6_000_000), rule: "any timestamps: wrapping sums, random, falling", run: c06_instants },
        Law { prop: "C06", name: "buffers", kind: Kind::Random(150_000, 4_000_000), rule: "any durations as a buffer", run: c06_buffers },
        Law { prop: "C06", name: "polled", kind: Kind::Random(20_000, 400_000), rule: "random line levels, any rate", run: c06_polled },
        Law { prop: "C06", name: "encoders", kind: Kind::Random(400_000, 8_000_000), rule: "any value of every command struct, 44 rates", run: c06_encode },
        Law { prop: "C06", name: "senders", kind: Kind::Random(60_000, 2_000_000), rule: "load, reset and tick with any timestamps, in any order", run: c06_sender },
        Law { prop: "C06", name: "conversions", kind: Kind::Random(600_000, 20_000_000), rule: "create, pack, unpack, validate, AnyCommand, remote decode of any numbers", run: c06_convert },
        Law { prop: "C06", name: "multi", kind: Kind::Random(60_000, 1_500_000), rule: "any edges into multi-receivers", run: c06_multi },
        Law { prop: "C07", name: "fronts", kind: Kind::Random(150_000, 4_000_000), rule: "same history through 8 front ends and both buffer forms; non-trivial: something other than Ok(None) is reported", run: c07_fronts },
        Law { prop: "C07", name: "iterator", kind: Kind::Random(60_000, 2_000_000), rule: "several iterators of one buffer receiver, each used through next, nth, take, size_hint and then count, last, fold, step_by, skip, peekable, zip, filter or collect, against the list of commands; non-trivial: more than one command in a buffer", run: c07_iterator },
        Law { prop: "C07", name: "polled", kind: Kind::Random(15_000, 400_000), rule: "same history as events and polled tick by tick, with and without pin", run: c07_polled },
        Law { prop: "C07", name: "user_decoder", kind: Kind::Random(150_000, 4_000_000), rule: "a decoder with arbitrary answers (incl. done without command) through all front ends against a model", run: c07_user_decoder },
        Law { prop: "C07", name: "user_decoder_polled", kind: Kind::Random(15_000, 400_000), rule: "the same, polled", run: c07_user_polled },
        Law { prop: "C07", name: "builders", kind: Kind::Random(100_000, 2_500_000), rule: "all orders of builder calls, shorthands, defaults, with_fugit", run: c07_builders },
        Law { prop: "C07", name: "built_polled", kind: Kind::Random(10_000, 200_000), rule: "polled receivers from the builder", run: c07_built_polled },
        Law { prop: "C07", name: "built_remote", kind: Kind::Random(30_000, 800_000), rule: "receivers with a remote-control model from the builder, event driven and polled; non-trivial: a command is reported", run: c07_built_remote },
        Law { prop: "C19", name: "events", kind: Kind::Random(200_000, 5_000_000), rule: "failing calls between the calls of any history (durations and instants); non-trivial: failures and results", run: c19_events },
        Law { prop: "C19", name: "kinds", kind: Kind::Random(150_000, 4_000_000), rule: "decoder with every kind of error, pin identity after release", run: c19_kinds },
        Law { prop: "C19", name: "polled", kind: Kind::Random(8_000, 200_000), rule: "failing polls, many at the edges", run: c19_polled },
        Law { prop: "C19", name: "multi", kind: Kind::Random(60_000, 1_500_000), rule: "failing calls of a multi-receiver", run: c19_multi },
        Law { prop: "C20", name: "polled_wrap", kind: Kind::Exhaustive(9, 1, 6), rule: "2^32 real polls, counter wraps inside the frame, then another frame", run: c20_polled },
        Law { prop: "C20", name: "fugit_wrap", kind: Kind::Random(200_000, 5_000_000), rule: "frames, 32-bit fugit timestamps wrap inside one of them; non-trivial: a command is due", run: c20_fugit },
        Law { prop: "C20", name: "fugit_histories", kind: Kind::Random(100_000, 3_000_000), rule: "any history with wrapping 32-bit fugit timestamps against durations; non-trivial: wraps", run: c20_fugit_hist },
        Law { prop: "C20", name: "backward", kind: Kind::Random(150_000, 4_000_000), rule: "frames with backward steps/wraps of integer timestamps; non-trivial: a backward step", run: c20_backward },
        Law { prop: "C20", name: "any_instants", kind: Kind::Random(150_000, 4_000_000), rule: "histories with random backward steps, integer clocks", run: c20_any },
    ]
}
