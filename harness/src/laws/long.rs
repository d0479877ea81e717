//! Endurance: the same guarantees after hundreds or tens of thousands of frames, damaged frames,
//! repeats, failed calls or idle ticks in one session.

use infrared::receiver::{DecoderBuilder, MultiReceiver, NoPin, PeriodicPoll, Receiver, State};

use crate::dut::{self, pinres, Front, Mono, PinRes, Res, TestPin};
use crate::engine::{Ctx, Kind, Law, Outcome, Src};
use crate::hist::{self, gap_then_rise, history, show, Cfg};
use crate::laws::codec::{any_cmd, label};
use crate::laws::send;
use crate::spec::*;
use crate::{by_proto, ensure};

/// How often something is repeated: beyond 8 bits, seldom beyond 16.
fn many(s: &mut Src) -> u64 {
    if s.chance(1, 40) {
        65_530 + s.below(40)
    } else {
        250 + s.below(50)
    }
}

/// A receiver that takes one edge at a time.
type Rx = Box<dyn FnMut(&Edge) -> Res>;

fn rx<Pr>(how: u64, f: u32) -> Rx
where
    Pr: DecoderBuilder<u32> + DecoderBuilder<u64> + 'static,
    Dec: From<<Pr as infrared::Protocol>::Cmd>,
{
    match how {
        0 => {
            let mut r: Receiver<Pr, NoPin, u32, Dec> = Receiver::new(f);
            Box::new(move |e| r.event(e.dt as u32, e.rising))
        }
        1 => {
            let mut r: Receiver<Pr, NoPin, u64, Dec> = Receiver::new(f);
            Box::new(move |e| r.event(e.dt, e.rising))
        }
        2 => {
            let mut r: Receiver<Pr, NoPin, u64, Dec> = Receiver::new(f);
            let mut t = 0u64;
            Box::new(move |e| {
                t = t.wrapping_add(e.dt);
                r.event_instant(t, e.rising)
            })
        }
        _ => {
            let pin = TestPin::new();
            let mut r: Receiver<Pr, TestPin, u32, Dec> = Receiver::with_pin(f, pin.clone());
            Box::new(move |e| {
                pin.on.set(e.rising);
                match pinres(r.event(e.dt as u32)) {
                    PinRes::Res(r) => r,
                    PinRes::Hal(_) => Err(infrared::receiver::DecodingError::RemoteControlError),
                }
            })
        }
    }
}

/// A block of junk again and again, each time followed by idle time and a frame.
fn c05_long(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let f = hist::rate(s);
    let how = s.below(4);
    let max = if how == 2 { 1 << 34 } else { u32::MAX as u64 };
    let n = many(s);
    let cfg = Cfg { segs: 2, ..if s.bool() { Cfg::wild(max) } else { Cfg::alternating(max) } };
    let block = history(s, p, f, &cfg, ctx);
    // some frames with different bits, taken in turn
    let wins = Wins::new(p.fam(), f);
    let k = s.range(1, 4);
    let mut frames = vec![];
    for _ in 0..k {
        let mut w = Wire::new(f);
        w.edges.clone_from(&block.edges);
        w.level = block.level;
        let at = gap_then_rise(s, &mut w, &Cfg { max, ..cfg });
        let bits = any_bits(p, s);
        let (v, done) = frame(s, &wins, bits, Jit::Full);
        w.pulses(&v);
        frames.push((w.edges, at, at + done + 1, expected(p, bits, false)));
    }
    ctx.nontrivial = true;
    ctx.label(label(p));
    ctx.label(if n > 60_000 { "beyond 16 bits" } else { "beyond 8 bits" });
    ctx.sample(|| format!("{:?}@{} form {}: {} times {}", p, f, how, n, show(&frames[0].0)));
    let mut r = by_proto!(p, T => rx::<T>(how, f));
    for i in 0..n {
        let (edges, at, done, want) = &frames[(i % k) as usize];
        for (j, e) in edges.iter().enumerate() {
            let got = r(e);
            if j >= *at {
                let got = got.unwrap_or(None);
                let want = if j == *done { *want } else { None };
                ensure!(
                    got == want,
                    "{:?}@{} Hz form {}: in round {} edge {} reports {:?}, expected {:?}; each round is {} (frame from edge {})",
                    p, f, how, i, j, got, want, show(edges), at
                );
            }
        }
        ctx.inner += edges.len() as u64;
    }
    Ok(())
}

/// One frame and very many repeats of it.
fn c11_forever(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&NECS);
    let f = hist::rate(s);
    let how = s.below(4);
    let wins = Wins::new(p.fam(), f);
    let cfg = Cfg::alternating(if how == 2 { 1 << 34 } else { u32::MAX as u64 });
    let n = many(s);
    let mut w = Wire::new(f);
    gap_then_rise(s, &mut w, &cfg);
    let bits = wellformed_bits(p, s);
    let (v, done) = frame(s, &wins, bits, Jit::Full);
    w.pulses(&v);
    let d = expected(p, bits, false).unwrap();
    let mut rp = Wire::new(f);
    rp.level = true;
    let at = gap_then_rise(s, &mut rp, &cfg);
    let (v, rdone) = repeat_code(s, &wins, Jit::Full);
    rp.pulses(&v);
    if rp.level {
        rp.push(1);
    }
    ctx.nontrivial = true;
    ctx.label(label(p));
    ctx.sample(|| format!("{:?}@{} form {}: {:?} and {} repeats", p, f, how, d, n));
    let mut r = by_proto!(p, T => rx::<T>(how, f));
    for (j, e) in w.edges.iter().enumerate() {
        let got = r(e).unwrap_or(None);
        let want = if j == done + 1 { Some(d) } else { None };
        ensure!(got == want, "{:?}@{} Hz form {}: the frame reports {:?} at edge {}", p, f, how, got, j);
    }
    let again = Dec { rep: p != P::Debug, ..d };
    for i in 0..n {
        let skip = usize::from(i == 0 && !w.level);
        for (j, e) in rp.edges.iter().enumerate().skip(if i > 0 { 1 } else { skip }) {
            let got = r(e).unwrap_or(None);
            let want = if j == at + rdone + 1 { Some(again) } else { None };
            ensure!(got == want, "{:?}@{} Hz form {}: repeat {} of {:?} reports {:?} at its edge {} of {}", p, f, how, i, d, got, j, show(&rp.edges));
        }
        ctx.inner += rp.edges.len() as u64;
    }
    Ok(())
}

/// All front ends agree over long histories.
fn c07_long(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let m = *s.pick(&[Mono::U32, Mono::U64]);
    let f = hist::rate(s);
    let max = if m == Mono::U64 { 1 << 34 } else { 1 << 12 };
    // 32-bit timestamps must not overflow
    let cfg = Cfg { segs: 3, ..Cfg::alternating(max) };
    let mut w = history(s, p, f, &cfg, ctx);
    if w.level {
        w.push(1);
    }
    let wins = Wins::new(p.fam(), f);
    let t = to_ticks(IDLE_US, f) + 4;
    w.push(t);
    let bits = any_bits(p, s);
    let (v, _) = frame(s, &wins, bits, Jit::Full);
    w.pulses(&v);
    if w.level {
        w.push(1);
    }
    let n = many(s);
    let total: u64 = w.edges.iter().map(|e| e.dt).sum();
    let mut edges = vec![];
    for i in 0..n {
        if m == Mono::U32 && (i + 1) * total > u32::MAX as u64 {
            break;
        }
        edges.extend(w.edges.iter().copied());
        if edges.len() > 140_000 {
            break;
        }
    }
    ctx.label(label(p));
    let fr = *s.pick(&dut::FRONTS);
    ctx.sample(|| format!("{:?} {:?}@{} {:?}: {} edges", p, m, f, fr, edges.len()));
    let a = dut::run(p, m, Front::Event, f, &edges);
    ctx.nontrivial = a.iter().filter(|r| **r != Ok(None)).count() > 100;
    ctx.inner += edges.len() as u64;
    let b = dut::run(p, m, fr, f, &edges);
    let d = a.iter().zip(&b).position(|(x, y)| x != y);
    ensure!(
        d.is_none(),
        "{:?} {:?}@{} Hz: event and {:?} differ at edge {:?}: {:?} and {:?}; the line repeats {}",
        p, m, f, fr, d, d.map(|i| a[i]), d.map(|i| b[i]), show(&w.edges)
    );
    let c: Vec<Dec> = dut::buffer(p, m, if s.bool() { dut::Buf::Freq } else { dut::Buf::IterWith }, f, &edges.iter().map(|e| e.dt).collect::<Vec<_>>());
    let want: Vec<Dec> = crate::laws::cmds(&a).into_iter().map(|x| x.1).collect();
    let k = c.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(c.len().min(want.len()));
    ensure!(
        c == want,
        "{:?} {:?}@{} Hz: the buffer gives {} commands, events {}; they differ from number {} on; the line repeats {}",
        p, m, f, c.len(), want.len(), k, show(&w.edges)
    );
    Ok(())
}

/// Frames for the members in turn, hundreds of them and more, each in its own slot.
fn c09_long(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    use infrared::protocol::{Denon, Nec, Rc5, Rc6, SamsungNec, Sbp};
    const MEMBERS: [P; 6] = [P::Nec, P::Samsung, P::Rc5, P::Rc6, P::Sbp, P::Denon];
    let f = hist::rate(s);
    let n = if s.chance(1, 4) { 65_540 } else { 300 + s.below(100) };
    let cfg = Cfg::alternating(u32::MAX as u64);
    let mut lines = vec![];
    for (i, p) in MEMBERS.iter().enumerate() {
        let mut w = Wire::new(f);
        // the line may be left high by the frame before
        w.level = true;
        gap_then_rise(s, &mut w, &cfg);
        let wins = Wins::new(p.fam(), f);
        let bits = wellformed_bits(*p, s);
        let (v, _) = frame(s, &wins, bits, Jit::Nominal);
        w.pulses(&v);
        if !w.level {
            let t = to_ticks(IDLE_US, f) + 4;
            w.push(t);
        }
        lines.push((w.edges, i, dut_view(&expected(*p, bits, false).unwrap())));
    }
    ctx.nontrivial = true;
    ctx.sample(|| format!("6 receivers@{}: {} frames", f, n));
    let mut r = MultiReceiver::<6, (Nec, SamsungNec, Rc5, Rc6, Sbp, Denon), NoPin>::new(f, NoPin);
    for i in 0..n {
        let (edges, slot, want) = &lines[(i % 6) as usize];
        let mut got = vec![];
        for e in edges {
            for (k, c) in r.event_generic(e.dt as u32, e.rising).into_iter().enumerate() {
                if let Some(c) = c {
                    got.push((k, crate::laws::codec::view(c)));
                }
            }
        }
        ctx.inner += edges.len() as u64;
        ensure!(
            got.len() == 1 && got[0].0 == *slot && crate::laws::codec::same_view(&got[0].1, want),
            "six-fold multi-receiver@{} Hz: frame {} ({:?}) gives {:?}, expected {:?} in slot {}: {}",
            f, i, MEMBERS[*slot], got, want, slot, show(edges)
        );
    }
    Ok(())
}
fn dut_view(d: &Dec) -> (infrared::ProtocolId, u64, u32, u32, bool) {
    crate::laws::codec::any_view(d)
}

/// A sender and a polled receiver in step, for hundreds of frames and more.
fn c14_long(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    fn go<Pr>(f: u32, snd: &mut dyn send::AnySender, cmds: &[Dec], waves: &[u64], gap: u64, n: u64, inner: &mut u64) -> Outcome
    where
        Pr: DecoderBuilder<u32>,
        Dec: From<Pr::Cmd>,
    {
        let mut r: PeriodicPoll<Pr, NoPin, Dec> = PeriodicPoll::new(f);
        for i in 0..n {
            let k = (i % cmds.len() as u64) as usize;
            snd.load(&cmds[k]);
            let mut got = vec![];
            for _ in 0..waves[k] + gap {
                if let Ok(Some(c)) = r.poll(snd.tick().0) {
                    got.push(c);
                }
            }
            *inner += waves[k] + gap;
            ensure!(got == cmds[k..k + 1], "transmission {} at {} Hz: sent {:?}, received {:?}", i, f, cmds[k], got);
        }
        Ok(())
    }
    let p = *s.pick(&ENCODABLE);
    let f = if p == P::Rc6 { 40_000 } else { *s.pick(&[20_000u32, 38_000, 40_000]) };
    let is_pwm = s.bool();
    let n = if s.chance(1, 60) { 65_540 } else { 300 };
    let t0 = s.bits(32) as u32;
    let mut snd = send::sender(s, is_pwm, f, 128, t0);
    let cmds: Vec<Dec> = (0..s.range(1, 4)).map(|_| any_cmd(s, p)).collect();
    let waves: Vec<u64> = cmds.iter().map(|d| dut::encode_vec(f, d).iter().sum()).collect();
    let gap = to_ticks(IDLE_US, f) + 5;
    ctx.nontrivial = true;
    ctx.label(label(p));
    ctx.sample(|| format!("pwm {} at {}: {} transmissions of {:?}", is_pwm, f, n, cmds));
    let mut inner = 0;
    let r = by_proto!(p, T => go::<T>(f, &mut *snd, &cmds, &waves, gap, n, &mut inner));
    ctx.inner += inner;
    r
}

/// The PWM sender's own counter passes 2^32 while it is idle; nothing happens, and the next frame
/// is played as always.
fn c13_wrap(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    use infrared::protocol::{Nec, Rc5, SamsungNec};
    use infrared::sender::Sender;
    let on = std::rc::Rc::new(std::cell::Cell::new(false));
    let mut snd: Sender<send::TestPwm, 20_000, 96> = Sender::new(send::TestPwm { on: on.clone() });
    let p = [P::Nec, P::Rc5, P::Samsung][s.below(3) as usize];
    let before = s.bool();
    let off = s.below(5000);
    let d = any_cmd(s, p);
    let wave = dut::encode_vec(20_000, &d);
    let load = |snd: &mut Sender<send::TestPwm, 20_000, 96>| match p {
        P::Nec => snd.load::<Nec>(&dut::nec(&d)),
        P::Rc5 => snd.load::<Rc5>(&dut::rc5(&d)),
        _ => snd.load::<SamsungNec>(&dut::samsung(&d)),
    };
    if before {
        load(&mut snd);
        for _ in 0..=wave.iter().sum::<u64>() {
            snd.tick();
        }
    }
    let n = (1u64 << 32) - off;
    let mut lit = false;
    let mut k = 0;
    while k < n {
        for _ in 0..(n - k).min(1 << 20) {
            snd.tick();
            lit |= on.get();
        }
        k += 1 << 20;
    }
    ctx.nontrivial = true;
    ctx.inner += n;
    ctx.sample(|| format!("{} idle ticks, then {:?}", n, d));
    ensure!(!lit, "pwm sender switches its output on without a command within {} idle ticks", n);
    load(&mut snd);
    let pb = send::Playback::new(&wave);
    for k in 0..=pb.end() + 50 {
        snd.tick();
        ensure!(on.get() == pb.level(k), "pwm sender after {} idle ticks: {} at tick {} of {:?}", n, on.get(), k, wave);
    }
    for k in 0..2 * off {
        snd.tick();
        ensure!(!on.get(), "pwm sender is on {} ticks after the end", k + 50);
    }
    Ok(())
}

/// Long runs of failing pin reads.
fn c19_long(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    fn events<Pr>(f: u32, edges: &[Edge], at: &[usize], n: u64, fresh: &[Res], instant: bool) -> Outcome
    where
        Pr: DecoderBuilder<u32>,
        Dec: From<Pr::Cmd>,
    {
        let pin = TestPin::new();
        let mut r: Receiver<Pr, TestPin, u32, Dec> = Receiver::with_pin(f, pin.clone());
        let mut t = 0u32;
        for (i, e) in edges.iter().enumerate() {
            pin.on.set(e.rising);
            let call = |r: &mut Receiver<Pr, TestPin, u32, Dec>| {
                pinres(if instant { r.event_instant(t.wrapping_add(e.dt as u32)) } else { r.event(e.dt as u32) })
            };
            if at.contains(&i) {
                for k in 0..n {
                    pin.fail.set(Some(k as u32));
                    let g = call(&mut r);
                    ensure!(g == PinRes::Hal(k as u32), "failing call {} before edge {} gives {:?}", k, i, g);
                }
                pin.fail.set(None);
            }
            let g = call(&mut r);
            t = t.wrapping_add(e.dt as u32);
            ensure!(g == PinRes::Res(fresh[i]), "edge {} after {} failing calls gives {:?}, expected {:?}: {}", i, n, g, fresh[i], show(edges));
        }
        Ok(())
    }
    fn polled<Pr>(f: u32, edges: &[Edge], at: &[usize], n: u64, fresh: &[Res]) -> Outcome
    where
        Pr: DecoderBuilder<u32>,
        Dec: From<Pr::Cmd>,
    {
        let pin = TestPin::new();
        let mut r: PeriodicPoll<Pr, TestPin, Dec> = PeriodicPoll::with_pin(f, pin.clone());
        for (i, e) in edges.iter().enumerate() {
            for _ in 1..e.dt {
                let g = pinres(r.poll());
                ensure!(g == PinRes::Res(Ok(None)), "poll between edges gives {:?}", g);
            }
            pin.on.set(e.rising);
            if at.contains(&i) {
                for k in 0..n {
                    pin.fail.set(Some(k as u32));
                    let g = pinres(r.poll());
                    ensure!(g == PinRes::Hal(k as u32), "failing poll {} before edge {} gives {:?}", k, i, g);
                }
                pin.fail.set(None);
            }
            let g = pinres(r.poll());
            ensure!(g == PinRes::Res(fresh[i]), "polled edge {} after {} failing polls gives {:?}, expected {:?}: {}", i, n, g, fresh[i], show(edges));
        }
        Ok(())
    }
    let p = *s.pick(&ALL);
    let f = *s.pick(&[40_000u32, 50_000, 44_100]);
    let n = many(s);
    let mut w = Wire::new(f);
    let wins = Wins::new(p.fam(), f);
    let t = to_ticks(IDLE_US, f) + 4;
    w.push(t);
    let bits = any_bits(p, s);
    let (v, _) = frame(s, &wins, bits, Jit::Full);
    w.pulses(&v);
    for e in &mut w.edges {
        e.dt = e.dt.max(1);
    }
    let at: Vec<usize> = (0..s.range(1, 4)).map(|_| s.below(w.edges.len() as u64) as usize).collect();
    ctx.nontrivial = true;
    ctx.label(label(p));
    ctx.inner += n * at.len() as u64;
    let how = s.below(3);
    ctx.sample(|| format!("{:?}@{} form {}: {} failing reads before each of the edges {:?}", p, f, how, n, at));
    let fresh = dut::run(p, Mono::U32, Front::Event, f, &w.edges);
    let r = match how {
        2 => by_proto!(p, T => polled::<T>(f, &w.edges, &at, n, &fresh)),
        k => by_proto!(p, T => events::<T>(f, &w.edges, &at, n, &fresh, k == 1)),
    };
    r.map_err(|e| format!("{:?}@{} Hz, {} failing reads before each of the edges {:?}: {}", p, f, n, at, e))
}

/// A steady tone: the start of something, then the same few pulses again and again.
fn tone(s: &mut Src, p: P, f: u32, max: u64, w: &mut Wire, ctx: &mut Ctx) {
    let wins = Wins::new(p.fam(), f);
    match s.below(3) {
        0 => {}
        1 => {
            let bits = any_bits(p, s);
            let (v, _) = frame(s, &wins, bits, Jit::Full);
            let n = s.below(v.len() as u64 + 1) as usize;
            w.push(to_ticks(IDLE_US, f) + 4);
            w.pulses(&v[..n]);
        }
        _ => {
            for _ in 0..s.range(1, 6) {
                let t = hist::class_time(s, &wins);
                w.push(t.min(max));
            }
        }
    }
    let fam = if s.chance(3, 4) { p.fam() } else { *s.pick(&FAMS) };
    let mw = Wins::new(fam, f);
    let motif: Vec<u64> = (0..s.range(1, 4))
        .map(|_| if s.chance(1, 8) { hist::junk_time(s, f, &Cfg::alternating(max)) } else { hist::class_time(s, &mw) }.min(max))
        .collect();
    let n = *s.pick(&[300usize, 300, 1_000, 33_000, 66_000, 133_000]);
    ctx.label(if n > 30_000 { "beyond 15 bits" } else { "beyond 8 bits" });
    for i in 0..n {
        w.push(motif[i % motif.len()]);
    }
}

/// A steady tone for very long, then idle time and a frame.
fn c05_tone(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let f = hist::rate(s);
    let how = s.below(4);
    let max = if how == 2 { 1 << 34 } else { u32::MAX as u64 };
    let mut w = Wire::new(f);
    tone(s, p, f, max, &mut w, ctx);
    let at = gap_then_rise(s, &mut w, &Cfg::alternating(max));
    let bits = any_bits(p, s);
    let wins = Wins::new(p.fam(), f);
    let (v, done) = frame(s, &wins, bits, Jit::Full);
    w.pulses(&v);
    let want = expected(p, bits, false);
    ctx.nontrivial = true;
    ctx.label(label(p));
    ctx.inner += w.edges.len() as u64;
    let head = w.edges.len().min(16);
    ctx.sample(|| format!("{:?}@{} form {}: {} edges, starting {}", p, f, how, w.edges.len(), show(&w.edges[..head])));
    let mut r = by_proto!(p, T => rx::<T>(how, f));
    for (i, e) in w.edges.iter().enumerate() {
        let got = r(e);
        if i >= at {
            let want = if i == at + done + 1 { want } else { None };
            ensure!(
                got.unwrap_or(None) == want,
                "{:?}@{} Hz form {}: after a tone of {} edges (starting {}) edge {} of the frame {} reports {:?}, expected {:?}",
                p, f, how, at, show(&w.edges[..head]), i - at, show(&w.edges[at..]), got, want
            );
        }
    }
    Ok(())
}

/// A decoder driven directly through a tone, from any state, end states included.
fn c18_tone(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let (m, f) = hist::clock(s);
    let mut w = Wire::new(f);
    tone(s, p, f, m.max(), &mut w, ctx);
    let resets = s.chance(1, 4);
    ctx.label(label(p));
    ctx.inner += w.edges.len() as u64;
    let head = w.edges.len().min(80);
    ctx.sample(|| format!("{:?} {:?}@{}: {} edges, starting {}", p, m, f, w.edges.len(), show(&w.edges[..head])));
    let mut d = dut::decoder(p, m, f);
    let mut prev: (State, Option<Dec>) = (State::Idle, None);
    for (i, e) in w.edges.iter().enumerate() {
        let ended = matches!(prev.0, State::Done | State::Error(_));
        if ended && resets {
            d.reset();
            prev = (State::Idle, None);
        }
        let st = d.event(e.rising, e.dt);
        let now = (st, d.command());
        ensure!(now.1.is_none() || st == State::Done, "{:?} {:?}@{} Hz: hands out {:?} in state {:?} at edge {} of {}", p, m, f, now.1, st, i, show(&w.edges[..head]));
        if ended && !resets {
            ctx.nontrivial = true;
            let may_restart = biphase(p.fam()) && d.class(e.dt).is_none();
            ensure!(may_restart || now == prev, "{:?} {:?}@{} Hz: at edge {} it goes from {:?} to {:?} without a reset: a tone starting {}", p, m, f, i, prev, now, show(&w.edges[..head]));
        }
        prev = now;
    }
    d.reset();
    let wins = Wins::new(p.fam(), f);
    let bits = any_bits(p, s);
    let (v, done) = frame(s, &wins, bits, Jit::Full);
    let want = expected(p, bits, false);
    let mut w2 = Wire::new(f);
    w2.push(to_ticks(IDLE_US, f) + 4);
    w2.pulses(&v);
    for (j, e) in w2.edges.iter().enumerate().take(done + 2) {
        let st = d.event(e.rising, e.dt);
        ensure!((st == State::Done) == (j == done + 1), "{:?} {:?}@{} Hz: {:?} at edge {} of a frame after a reset after a tone of {} edges starting {}", p, m, f, st, j, w.edges.len(), show(&w.edges[..head]));
    }
    ensure!(d.command() == want, "{:?} {:?}@{} Hz: {:?} instead of {:?} after a reset after a tone of {} edges starting {}", p, m, f, d.command(), want, w.edges.len(), show(&w.edges[..head]));
    Ok(())
}

/// The same without looking at the outcome: nothing may panic.
fn c06_tone(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let _ = c18_tone(s, ctx);
    Ok(())
}

pub fn laws() -> Vec<Law> {
    vec![
        Law { prop: "C05", name: "endurance", kind: Kind::Random(100, 6_000), rule: "250..300 or 65530..65570 rounds of junk, idle time and a frame in one session", run: c05_long },
        Law { prop: "C05", name: "tones", kind: Kind::Random(1_500, 60_000), rule: "the start of a frame or a few pulses, the same 1..4 pulses repeated for 300 to 133000 edges, idle time and a frame", run: c05_tone },
        Law { prop: "C06", name: "tones", kind: Kind::Random(1_500, 60_000), rule: "the tones of C18, for panics only; non-trivial: an edge arrived in an end state", run: c06_tone },
        Law { prop: "C18", name: "tones", kind: Kind::Random(1_500, 60_000), rule: "the same 1..4 pulses repeated for 300 to 133000 edges into a bare decoder, then reset and a frame; non-trivial: an edge arrived in an end state", run: c18_tone },
        Law { prop: "C07", name: "endurance", kind: Kind::Random(100, 2_000), rule: "a junk-and-frame block repeated to as many as 140000 edges, every front end and the buffer against event(); non-trivial: more than 100 results", run: c07_long },
        Law { prop: "C09", name: "endurance", kind: Kind::Random(4, 200), rule: "300..400 or 65540 frames for the six members in turn", run: c09_long },
        Law { prop: "C11", name: "endurance", kind: Kind::Random(1_000, 20_000), rule: "one frame and 250..300 or 65530..65570 repeat codes", run: c11_forever },
        Law { prop: "C13", name: "pwm_wrap", kind: Kind::Exhaustive(8, 1, 2), rule: "2^32 idle ticks of the PWM sender, then a frame", run: c13_wrap },
        Law { prop: "C14", name: "endurance", kind: Kind::Random(10, 500), rule: "300 or 65540 transmissions into one polled receiver", run: c14_long },
        Law { prop: "C19", name: "endurance", kind: Kind::Random(400, 10_000), rule: "250..300 or 65530..65570 failing pin reads in a row at several points of a frame, event driven and polled", run: c19_long },
    ]
}
