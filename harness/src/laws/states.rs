//! C25 decoder states and errors describe the line.

use infrared::receiver::{DecodingError, State};

use crate::dut::{self, Front, Mono, Res};
use crate::engine::{Ctx, Kind, Law, Outcome, Src};
use crate::ensure;
use crate::hist::{self, clock, gap_then_rise, history, show, Cfg};
use crate::laws::codec::label;
use crate::laws::decode::front;
use crate::spec::*;

/// What is on the line: index of the first edge of a frame, of the edge from which the lead-in has been
/// seen, and of the completing edge.
struct Placed {
    first: usize,
    lead: usize,
    done: usize,
}

fn clean_line(s: &mut Src, p: P, f: u32, cfg: &Cfg) -> (Wire, Vec<Placed>) {
    let wins = Wins::new(p.fam(), f);
    let mut w = Wire::new(f);
    let mut at = vec![];
    for i in 0..s.range(1, 5) {
        let first = gap_then_rise(s, &mut w, cfg);
        let jit = if s.bool() { Jit::Full } else { Jit::Nominal };
        if i > 0 && p.is_nec() && s.below(3) == 0 {
            let (v, done) = repeat_code(s, &wins, jit);
            w.pulses(&v);
            at.push(Placed { first, lead: first + done + 1, done: first + done + 1 });
            continue;
        }
        let bits = wellformed_bits(p, s);
        let (v, done) = frame(s, &wins, bits, jit);
        w.pulses(&v);
        let lead = match p.fam() {
            Fam::Rc5 => first,
            _ => first + 2,
        };
        at.push(Placed { first, lead, done: first + done + 1 });
    }
    (w, at)
}

/// Nothing but good frames: no error, through any way of feeding the receiver.
fn c25_clean(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let (m, f) = clock(s);
    let mut fr = front(s, m, f);
    let mut cfg = Cfg::alternating(m.max());
    if matches!(fr, Front::Instant | Front::PinInstant) {
        // timestamps cannot carry maximal times
        if m == Mono::U64 {
            cfg.max = 1 << 40;
        } else {
            fr = Front::Event;
        }
    }
    let (w, at) = clean_line(s, p, f, &cfg);
    ctx.label(label(p));
    ctx.nontrivial = at.len() > 1;
    ctx.sample(|| format!("{:?} {:?}@{}: {} frames, {}", p, m, f, at.len(), show(&w.edges)));
    let r = dut::run(p, m, fr, f, &w.edges);
    for (i, x) in r.iter().enumerate() {
        ensure!(
            x.is_ok(),
            "{:?} {:?}@{} Hz {:?}: edge {} of a line with only good frames and idle time gives {:?}: {}",
            p,
            m,
            f,
            fr,
            i,
            x,
            show(&w.edges[..=i])
        );
    }
    Ok(())
}

/// The state a decoder reports during good frames.
fn c25_progress(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ALL);
    let (m, f) = clock(s);
    let cfg = Cfg::alternating(m.max());
    let (w, at) = clean_line(s, p, f, &cfg);
    ctx.label(label(p));
    ctx.nontrivial = true;
    ctx.sample(|| format!("{:?} {:?}@{}: {} frames, {}", p, m, f, at.len(), show(&w.edges)));
    let mut d = dut::decoder(p, m, f);
    let mut n = 0;
    for (i, e) in w.edges.iter().enumerate() {
        let st = d.event(e.rising, e.dt);
        let want = match at.get(n) {
            Some(x) if i == x.done => Some(State::Done),
            Some(x) if i >= x.lead && i < x.done => Some(State::Receiving),
            Some(x) if i >= x.first && i < x.done => None,
            // between frames the line falls after the last mark
            _ if !e.rising => Some(State::Idle),
            _ => None,
        };
        if let Some(want) = want {
            ensure!(
                st == want,
                "{:?} {:?}@{} Hz: at edge {} the decoder says {:?} and not {:?} (frame from edge {:?}): {}",
                p,
                m,
                f,
                i,
                st,
                want,
                at.get(n).map(|x| x.first),
                show(&w.edges[..=i])
            );
        }
        ensure!(!matches!(st, State::Error(_)), "{:?} {:?}@{} Hz: {:?} at edge {} of a clean line", p, m, f, st, i);
        if st == State::Done {
            d.reset();
            n += 1;
        }
    }
    ensure!(n == at.len(), "{:?} {:?}@{} Hz: {} of {} frames were done: {}", p, m, f, n, at.len(), show(&w.edges));
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    Wait,
    Bits(u32),
}

/// First class whose window holds the period; Err: cannot be told.
fn class(w: &Wins, d: Option<u64>) -> Result<Option<usize>, ()> {
    let Some(d) = d else { return Ok(None) };
    let x = d.min(i64::MAX as u64) as i64;
    for (k, (inn, out)) in w.w.iter().enumerate() {
        if inn.0 <= x && x <= inn.1 {
            return Ok(Some(k));
        }
        if out.0 <= x && x <= out.1 {
            return Err(());
        }
    }
    Ok(None)
}

/// What a receiver reports in errors: Some(error expected) per edge; stops where it cannot be told.
fn model(fam: Fam, w: &Wins, max: u64, edges: &[Edge]) -> Vec<Option<DecodingError>> {
    let mut out = vec![];
    let mut st = At::Wait;
    let mut mark = 0u64;
    for e in edges {
        if !e.rising {
            mark = e.dt;
            out.push(None);
            continue;
        }
        let per = e.dt.checked_add(mark).filter(|x| *x <= max);
        mark = 0;
        let Ok(k) = class(w, per) else { break };
        let mut err = None;
        st = match st {
            At::Wait => {
                if k == Some(0) {
                    At::Bits(0)
                } else {
                    At::Wait
                }
            }
            At::Bits(n) => {
                let bit = matches!(k, Some(2) | Some(3));
                let (last, ok, kind) = match fam {
                    Fam::Sbp => match n {
                        0..=15 => (36, bit, DecodingError::Address),
                        16 => (36, k == Some(1), DecodingError::Data),
                        _ => (36, bit, DecodingError::Data),
                    },
                    _ => (31, bit, DecodingError::Data),
                };
                if !ok {
                    err = Some(kind);
                    At::Wait
                } else if n == last {
                    At::Wait
                } else {
                    At::Bits(n + 1)
                }
            }
        };
        out.push(err);
    }
    out
}

const SIGNAL: [P; 6] = [P::Nec, P::Nec16, P::Samsung, P::Apple, P::Debug, P::Sbp];

/// NEC and Blu-ray: an error for each frame that breaks off, and no other.
fn c25_signalled(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&SIGNAL);
    let (m, f) = clock(s);
    let cfg = Cfg::alternating(m.max());
    let mut w = history(s, p, f, &cfg, ctx);
    if let Some(e) = w.edges.first_mut() {
        e.dt = hist::idle(s, f, &cfg);
    }
    let wins = Wins::new(p.fam(), f);
    let want = model(p.fam(), &wins, m.max(), &w.edges);
    ctx.label(label(p));
    ctx.nontrivial = want.iter().any(|x| x.is_some());
    ctx.sample(|| format!("{:?} {:?}@{}: {} errors, {}", p, m, f, want.iter().flatten().count(), show(&w.edges)));
    let r: Vec<Res> = dut::run(p, m, Front::Event, f, &w.edges[..want.len()]);
    for (i, (x, y)) in r.iter().zip(&want).enumerate() {
        ensure!(
            x.as_ref().err() == y.as_ref(),
            "{:?} {:?}@{} Hz: edge {} gives {:?}, expected {}: {}",
            p,
            m,
            f,
            i,
            x,
            match y {
                Some(k) => format!("the error {k:?}"),
                None => "no error".to_string(),
            },
            show(&w.edges[..=i])
        );
    }
    Ok(())
}

pub fn laws() -> Vec<Law> {
    vec![
        Law { prop: "C25", name: "clean", kind: Kind::Random(200_000, 4_000_000), rule: "1..5 good frames (NEC: repeat codes, too) and idle time, any clock and front end; non-trivial: two or more", run: c25_clean },
        Law { prop: "C25", name: "progress", kind: Kind::Random(200_000, 4_000_000), rule: "the state a decoder reports at each edge of 1..5 good frames", run: c25_progress },
        Law { prop: "C25", name: "signalled", kind: Kind::Random(400_000, 8_000_000), rule: "alternating histories for NEC and Blu-ray; non-trivial: at least one frame breaks off", run: c25_signalled },
    ]
}
