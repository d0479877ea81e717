//! C24 instances do not affect each other, and the same calls give the same results.

use infrared::protocol::{Denon, Nec, Rc5, Rc6, SamsungNec, Sbp};
use infrared::receiver::{BufferInputReceiver, DecoderBuilder, MultiReceiver, NoPin, PeriodicPoll, Receiver};

use crate::dut::{self, Mono, Res, TestPin, Ticks};
use crate::engine::{Ctx, Kind, Law, Outcome, Src};
use crate::hist::{self, show, Cfg};
use crate::laws::codec::{any_cmd, view};
use crate::laws::send;
use crate::spec::*;
use crate::{by_mono, by_proto, ensure};

/// What one call gave.
#[derive(Debug, Clone, PartialEq)]
enum Got {
    Res(Res),
    Cmd(Option<Dec>),
    Slots(Vec<Option<(infrared::ProtocolId, u64, u32, u32, bool)>>),
    Level(bool),
    Pulses(Vec<u64>),
    End,
}

#[derive(Debug, Clone)]
enum What {
    /// protocol, clock, instants, pin, rate
    Receiver(P, Mono, bool, bool, u32),
    Polled(P, u32),
    Buffer(P, u32),
    Multi(u32),
    Sender(bool, u32, u32, usize),
    Encoder(u32),
}

#[derive(Debug, Clone)]
struct Spec {
    what: What,
    edges: Vec<Edge>,
    cmds: Vec<Dec>,
}

type Stepper = Box<dyn FnMut() -> Got>;

fn receiver<Pr, M>(instants: bool, pin: bool, f: u32, edges: Vec<Edge>) -> Stepper
where
    M: Ticks + 'static,
    Pr: DecoderBuilder<M> + 'static,
    Pr::Decoder: 'static,
    Dec: From<Pr::Cmd>,
{
    let mut i = 0;
    let mut t = 0u64;
    if pin {
        let p = TestPin::new();
        let on = p.on.clone();
        let mut r: Receiver<Pr, TestPin, M, Dec> = Receiver::with_pin(f, p);
        return Box::new(move || {
            let Some(e) = edges.get(i) else { return Got::End };
            i += 1;
            t = t.wrapping_add(e.dt);
            on.set(e.rising);
            match dut::pinres(if instants { r.event_instant(M::inst(t)) } else { r.event(M::dur(e.dt)) }) {
                dut::PinRes::Res(x) => Got::Res(x),
                dut::PinRes::Hal(_) => Got::Level(false),
            }
        });
    }
    let mut r: Receiver<Pr, NoPin, M, Dec> = Receiver::new(f);
    Box::new(move || {
        let Some(e) = edges.get(i) else { return Got::End };
        i += 1;
        t = t.wrapping_add(e.dt);
        Got::Res(if instants { r.event_instant(M::inst(t), e.rising) } else { r.event(M::dur(e.dt), e.rising) })
    })
}

fn polled<Pr>(f: u32, edges: Vec<Edge>) -> Stepper
where
    Pr: DecoderBuilder<u32> + 'static,
    Pr::Decoder: 'static,
    Dec: From<Pr::Cmd>,
{
    let mut r: PeriodicPoll<Pr, NoPin, Dec> = PeriodicPoll::new(f);
    let mut i = 0;
    let mut level = false;
    // one step is everything up to and including the next edge
    Box::new(move || {
        let Some(e) = edges.get(i) else { return Got::End };
        i += 1;
        for _ in 1..e.dt {
            if r.poll(level) != Ok(None) {
                return Got::Level(true);
            }
        }
        level = e.rising;
        Got::Res(r.poll(level))
    })
}

fn buffer<Pr>(f: u32, edges: Vec<Edge>) -> Stepper
where
    Pr: DecoderBuilder<u32> + 'static,
    Dec: From<Pr::Cmd>,
{
    // the iterator borrows its receiver and the data, so every step starts over and asks for one more
    let v: Vec<u32> = edges.iter().map(|e| e.dt as u32).collect();
    let mut r: BufferInputReceiver<Pr, u32, Dec> = BufferInputReceiver::with_frequenzy(f);
    let mut n = 0;
    let mut over = false;
    Box::new(move || {
        if over {
            return Got::End;
        }
        let c = r.iter(&v).nth(n);
        n += 1;
        over = c.is_none();
        Got::Cmd(c)
    })
}

fn start(sp: &Spec) -> Stepper {
    let edges = sp.edges.clone();
    let cmds = sp.cmds.clone();
    match sp.what.clone() {
        What::Receiver(p, m, ins, pin, f) => by_proto!(p, T => by_mono!(m, f, M => receiver::<T, M>(ins, pin, f, edges))),
        What::Polled(p, f) => by_proto!(p, T => polled::<T>(f, edges)),
        What::Buffer(p, f) => by_proto!(p, T => buffer::<T>(f, edges)),
        What::Multi(f) => {
            let mut r: MultiReceiver<6, (Nec, Rc5, SamsungNec, Denon, Rc6, Sbp), NoPin> = MultiReceiver::new(f, NoPin);
            let mut i = 0;
            Box::new(move || {
                let Some(e) = edges.get(i) else { return Got::End };
                i += 1;
                Got::Slots(r.event_generic(e.dt as u32, e.rising).into_iter().map(|c| c.map(view)).collect())
            })
        }
        What::Sender(pwm, f, t0, size) => {
            let mut snd = send::any_sender(pwm, f, size, t0);
            let mut k = 0;
            let mut left = 0u64;
            Box::new(move || {
                if left == 0 {
                    let Some(d) = cmds.get(k) else { return Got::End };
                    k += 1;
                    snd.load(d);
                    left = 1 + snd.buffer().iter().sum::<u64>() + 3;
                    return Got::Pulses(snd.buffer());
                }
                // a run of ticks
                let mut v = vec![];
                for _ in 0..left.min(97) {
                    left -= 1;
                    v.push(u64::from(snd.tick().0));
                }
                Got::Pulses(v)
            })
        }
        What::Encoder(f) => {
            let mut k = 0;
            let mut b = [0u32; 128];
            Box::new(move || {
                let Some(d) = cmds.get(k) else { return Got::End };
                k += 1;
                // into whatever the last one left behind
                let n = dut::encode(f, d, &mut b).min(128);
                Got::Pulses(b[..n].iter().map(|x| u64::from(*x)).collect())
            })
        }
    }
}

fn alone(sp: &Spec) -> Vec<Got> {
    let mut st = start(sp);
    let mut v = vec![];
    loop {
        match st() {
            Got::End => return v,
            g => v.push(g),
        }
    }
}

fn any_spec(s: &mut Src, ctx: &mut Ctx, line: &mut Option<(u32, Vec<Edge>)>) -> Spec {
    let kind = s.weighted(&[8, 2, 3, 2, 2, 2]);
    let p = *s.pick(&ALL);
    let (m, f) = hist::clock(s);
    let mut cfg = Cfg { segs: 3, ..Cfg::alternating(m.max().min(u32::MAX as u64)) };
    let f = match kind {
        0 => f,
        1 => s.range(40_000, 60_000) as u32,
        4 => *s.pick(&[40_000, 44_100, 100_000]),
        5 => *s.pick(dut::enc_rates()),
        _ => hist::rate(s),
    };
    let mut edges = vec![];
    if kind < 4 {
        if kind == 1 {
            cfg = Cfg { segs: 2, ..Cfg::polled(f) };
        }
        // sometimes several watch the same line
        let shared = line.as_ref().filter(|l| l.0 == f).cloned();
        edges = match shared {
            Some((_, e)) if s.bool() && kind != 1 => e,
            _ => {
                let mut w = hist::history(s, p, f, &cfg, ctx);
                hist::gap_then_rise(s, &mut w, &cfg);
                let bits = any_bits(p, s);
                let (v, _) = frame(s, &Wins::new(p.fam(), f), bits, Jit::Full);
                w.pulses(&v);
                w.edges
            }
        };
        if kind == 2 {
            // buffers alternate by position
            for (i, e) in edges.iter_mut().enumerate() {
                e.rising = i % 2 == 0;
            }
        }
        *line = Some((f, edges.clone()));
    }
    let mut cmds = vec![];
    if kind >= 4 {
        for _ in 0..s.range(1, if kind == 4 { 2 } else { 6 }) {
            let q = *s.pick(&ENCODABLE);
            cmds.push(any_cmd(s, q));
        }
    }
    let what = match kind {
        0 => What::Receiver(p, m, s.bool(), s.bool(), f),
        1 => What::Polled(p, f),
        2 => What::Buffer(p, f),
        3 => What::Multi(f),
        4 => What::Sender(s.bool(), f, s.bits(32) as u32, 128),
        _ => What::Encoder(f),
    };
    Spec { what, edges, cmds }
}

fn tell(sp: &Spec) -> String {
    format!("{:?} with {} {:?}", sp.what, show(&sp.edges), sp.cmds)
}

/// Calls of up to six instances in any order, created and dropped at any time.
fn c24_interleaved(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let n = s.range(2, 6) as usize;
    let mut line = None;
    let specs: Vec<Spec> = (0..n).map(|_| any_spec(s, ctx, &mut line)).collect();
    let mut live: Vec<Option<Stepper>> = (0..n).map(|_| None).collect();
    let mut got: Vec<Vec<Got>> = vec![vec![]; n];
    let mut done = vec![false; n];
    let mut open: Vec<usize> = (0..n).collect();
    let burst = *s.pick(&[1u64, 3, 12, 70]);
    while !open.is_empty() {
        let k = s.below(open.len() as u64) as usize;
        let i = open[k];
        let st = live[i].get_or_insert_with(|| start(&specs[i]));
        for _ in 0..s.range(1, burst) {
            match st() {
                Got::End => {
                    done[i] = true;
                    break;
                }
                g => got[i].push(g),
            }
        }
        if done[i] || s.chance(1, 60) {
            live[i] = None;
            open.swap_remove(k);
        }
    }
    ctx.nontrivial = got.iter().filter(|g| g.iter().any(|x| matches!(x, Got::Res(Ok(Some(_))) | Got::Cmd(Some(_)) | Got::Pulses(_)))).count() > 1;
    ctx.inner += got.iter().map(|g| g.len() as u64).sum::<u64>();
    ctx.sample(|| specs.iter().map(|x| format!("{:?}", x.what)).collect::<Vec<_>>().join("; "));
    for i in 0..n {
        let want = alone(&specs[i]);
        if done[i] {
            ensure!(got[i].len() == want.len(), "{} instances, number {} gives {} results instead of {}: {}", n, i, got[i].len(), want.len(), tell(&specs[i]));
        }
        let k = got[i].iter().zip(&want).position(|(a, b)| a != b);
        if let Some(k) = k {
            return Err(format!(
                "{} instances at once ({}): number {} gives {:?} at step {}, alone {:?}: {}",
                n,
                specs.iter().map(|x| format!("{:?}", x.what)).collect::<Vec<_>>().join("; "),
                i,
                got[i][k],
                k,
                want[k],
                tell(&specs[i])
            ));
        }
    }
    Ok(())
}

/// The same things on several threads at once.
fn c24_threads(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let n = s.range(2, 4) as usize;
    let rounds = s.range(2, 20);
    let mut line = None;
    let specs: Vec<Spec> = (0..n).map(|_| any_spec(s, ctx, &mut line)).collect();
    let want: Vec<Vec<Got>> = specs.iter().map(alone).collect();
    ctx.nontrivial = true;
    ctx.inner += rounds * want.iter().map(|g| g.len() as u64).sum::<u64>();
    ctx.sample(|| specs.iter().map(|x| format!("{:?}", x.what)).collect::<Vec<_>>().join("; "));
    let bad: Vec<Option<u64>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let (sp, w) = (&specs[i], &want[i]);
                sc.spawn(move || (0..rounds).find(|_| alone(sp) != *w))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Some(u64::MAX))).collect()
    });
    for i in 0..n {
        ensure!(
            bad[i].is_none(),
            "{} threads ({}): run {:?} of {} differs from the first: {}",
            n,
            specs.iter().map(|x| format!("{:?}", x.what)).collect::<Vec<_>>().join("; "),
            bad[i],
            i,
            tell(&specs[i])
        );
    }
    Ok(())
}

/// Encoders give the same pulses whatever the buffer held, and need no more than the frame.
fn c24_encoders(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ENCODABLE);
    let f = *s.pick(dut::enc_rates());
    let d = any_cmd(s, p);
    let mut zero = [0u32; 128];
    let n = dut::encode(f, &d, &mut zero).min(128);
    let size = n + s.below((129 - n) as u64) as usize;
    let old = s.below(4);
    let mut b: Vec<u32> = (0..size)
        .map(|_| match old {
            0 => u32::MAX,
            1 => 1,
            _ => s.bits(32) as u32,
        })
        .collect();
    ctx.nontrivial = true;
    ctx.sample(|| format!("{:?} at {} into {} used entries", d, f, size));
    let k = dut::encode(f, &d, &mut b);
    ensure!(k == n && b[..n] == zero[..n], "{:?} at {} Hz into a used buffer of {} entries: {} entries {:?}, into an empty one of 128 {:?}", d, f, size, k, &b[..k.min(size)], &zero[..n]);
    Ok(())
}

pub fn laws() -> Vec<Law> {
    vec![
        Law { prop: "C24", name: "interleaved", kind: Kind::Random(40_000, 1_000_000), rule: "2..6 receivers, buffers, senders and encoders with their calls interleaved; non-trivial: at least two report commands or pulses", run: c24_interleaved },
        Law { prop: "C24", name: "threads", kind: Kind::Random(600, 15_000), rule: "2..4 instances on threads of their own, several rounds", run: c24_threads },
        Law { prop: "C24", name: "used_buffers", kind: Kind::Random(200_000, 4_000_000), rule: "encoding into buffers with any contents, from exactly the frame's length", run: c24_encoders },
    ]
}
