//! C09 multi-receivers.

use infrared::cmd::AnyCommand;
use infrared::receiver::{MultiReceiver, NoPin};

use crate::dut::{self, Front, Mono, TestPin, Ticks};
use crate::engine::{Ctx, Kind, Law, Outcome, Src};
use crate::ensure;
use crate::hist::{self, history, show, Cfg};
use crate::laws::codec::{any_view, same_view, view};
use crate::spec::*;

type View = (infrared::ProtocolId, u64, u32, u32, bool);

/// What one call returned: slots, or the yielded commands.
#[derive(Debug, Clone, PartialEq)]
pub enum Out {
    Slots(Vec<Option<View>>),
    Flat(Vec<View>),
    PinError,
}

pub struct Entry {
    pub protos: &'static [P],
    pub mono: Mono,
    pub run: fn(f: u32, how: u64, edges: &[Edge]) -> Vec<Out>,
}

fn slots<const N: usize>(v: [Option<AnyCommand>; N]) -> Out {
    Out::Slots(v.into_iter().map(|c| c.map(view)).collect())
}

macro_rules! ptype {
    (Nec) => { infrared::protocol::Nec };
    (Samsung) => { infrared::protocol::SamsungNec };
    (Apple) => { infrared::protocol::AppleNec };
    (Rc5) => { infrared::protocol::Rc5 };
    (Rc6) => { infrared::protocol::Rc6 };
    (Sbp) => { infrared::protocol::Sbp };
    (Denon) => { infrared::protocol::Denon };
}

macro_rules! entry {
    ($n:literal, $mono:ident, $mt:ty; $($p:ident)*) => {
        Entry {
            protos: &[$(P::$p),*],
            mono: Mono::$mono,
            run: {
                fn go(f: u32, how: u64, edges: &[Edge]) -> Vec<Out> {
                    type Tup = ($(ptype!($p),)*);
                    type M = $mt;
                    if how < 2 {
                        let mut r = MultiReceiver::<$n, Tup, NoPin, M>::new(f, NoPin);
                        edges.iter().map(|e| if how == 0 {
                            slots(r.event_generic(<M as Ticks>::dur(e.dt), e.rising))
                        } else {
                            Out::Flat(r.event_generic_iter(<M as Ticks>::dur(e.dt), e.rising).take($n + 1).map(view).collect())
                        }).collect()
                    } else {
                        let pin = TestPin::new();
                        let on = pin.on.clone();
                        let mut r = MultiReceiver::<$n, Tup, TestPin, M>::new(f, pin);
                        edges.iter().map(|e| {
                            on.set(e.rising);
                            if how == 2 {
                                r.event(<M as Ticks>::dur(e.dt)).map(slots).unwrap_or(Out::PinError)
                            } else {
                                r.event_iter(<M as Ticks>::dur(e.dt)).map(|i| Out::Flat(i.take($n + 1).map(view).collect())).unwrap_or(Out::PinError)
                            }
                        }).collect()
                    }
                }
                go
            },
        }
    };
}

macro_rules! pairs {
    ($v:ident; $($a:ident)*) => { $( pairs!(@row $v; $a); )* };
    (@row $v:ident; $a:ident) => {
        $v.push(entry!(2, U32, u32; $a Nec));
        $v.push(entry!(2, U32, u32; $a Samsung));
        $v.push(entry!(2, U32, u32; $a Apple));
        $v.push(entry!(2, U32, u32; $a Rc5));
        $v.push(entry!(2, U32, u32; $a Rc6));
        $v.push(entry!(2, U32, u32; $a Sbp));
        $v.push(entry!(2, U32, u32; $a Denon));
    };
}

/// For every rotation of the seven protocols its first 3, 4, 5 and 6.
macro_rules! prefixes {
    ($v:ident; $a:ident $b:ident $c:ident $d:ident $e:ident $f:ident $g:ident) => {
        $v.push(entry!(3, U32, u32; $a $b $c));
        $v.push(entry!(4, U32, u32; $a $b $c $d));
        $v.push(entry!(5, U32, u32; $a $b $c $d $e));
        $v.push(entry!(6, U32, u32; $a $b $c $d $e $f));
    };
}
macro_rules! rotations {
    ($v:ident; $a:ident $b:ident $c:ident $d:ident $e:ident $f:ident $g:ident) => {
        prefixes!($v; $a $b $c $d $e $f $g);
        prefixes!($v; $b $c $d $e $f $g $a);
        prefixes!($v; $c $d $e $f $g $a $b);
        prefixes!($v; $d $e $f $g $a $b $c);
        prefixes!($v; $e $f $g $a $b $c $d);
        prefixes!($v; $f $g $a $b $c $d $e);
        prefixes!($v; $g $a $b $c $d $e $f);
    };
}

pub fn table() -> &'static [Entry] {
    static T: std::sync::OnceLock<Vec<Entry>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![];
        pairs!(v; Nec Samsung Apple Rc5 Rc6 Sbp Denon);
        rotations!(v; Nec Samsung Apple Rc5 Rc6 Sbp Denon);
        rotations!(v; Denon Rc5 Samsung Sbp Nec Rc6 Apple);
        // the same protocol in several slots
        v.push(entry!(3, U32, u32; Nec Nec Nec));
        v.push(entry!(3, U32, u32; Rc5 Nec Rc5));
        v.push(entry!(4, U32, u32; Denon Samsung Samsung Denon));
        v.push(entry!(5, U32, u32; Nec Apple Nec Apple Nec));
        v.push(entry!(6, U32, u32; Rc6 Rc6 Sbp Sbp Rc5 Rc5));
        v.push(entry!(6, U32, u32; Nec Nec Nec Nec Nec Nec));
        // other clocks
        v.push(entry!(2, U64, u64; Nec Rc5));
        v.push(entry!(3, U64, u64; Samsung Denon Rc6));
        v.push(entry!(4, U64, u64; Sbp Apple Nec Rc5));
        v.push(entry!(6, U64, u64; Nec Samsung Rc5 Rc6 Sbp Denon));
        v.push(entry!(2, F32, fugit::Instant<u32, 1, 1_000_000>; Rc6 Samsung));
        v.push(entry!(3, F32, fugit::Instant<u32, 1, 1_000_000>; Nec Rc5 Apple));
        v.push(entry!(5, F32, fugit::Instant<u32, 1, 1_000_000>; Nec Rc5 Rc6 Samsung Sbp));
        v.push(entry!(6, F32, fugit::Instant<u32, 1, 1_000_000>; Denon Apple Sbp Rc6 Rc5 Nec));
        v.push(entry!(2, F64, fugit::Instant<u64, 1, 1_000_000>; Denon Sbp));
        v.push(entry!(4, F64, fugit::Instant<u64, 1, 1_000_000>; Nec Samsung Rc5 Rc6));
        v.push(entry!(6, F64, fugit::Instant<u64, 1, 1_000_000>; Apple Nec Sbp Rc5 Denon Samsung));
        v
    })
}

/// A line with frames for the members, junk, and what follows from both.
fn line(s: &mut Src, e: &Entry, f: u32, ctx: &mut Ctx) -> Wire {
    let mut w = Wire::new(f);
    let max = e.mono.max();
    for _ in 0..s.range(1, 5) {
        let p = *s.pick(e.protos);
        match s.below(3) {
            0 => {
                let cfg = if s.bool() { Cfg::wild(max) } else { Cfg::alternating(max) };
                hist::segment(s, p, &mut w, &cfg, ctx);
            }
            _ => {
                let cfg = Cfg::alternating(max);
                hist::gap_then_rise(s, &mut w, &cfg);
                let wins = Wins::new(p.fam(), f);
                let (v, _) = if p.is_nec() && s.chance(1, 4) {
                    repeat_code(s, &wins, Jit::Full)
                } else {
                    let bits = any_bits(p, s);
                    frame(s, &wins, bits, Jit::Full)
                };
                w.pulses(&v);
            }
        }
    }
    w
}

fn compare(e: &Entry, f: u32, how: u64, edges: &[Edge], ctx: &mut Ctx) -> Outcome {
    let singles: Vec<Vec<dut::Res>> = e.protos.iter().map(|p| dut::run(*p, e.mono, Front::Event, f, edges)).collect();
    let got = (e.run)(f, how, edges);
    let mut hits = 0;
    for i in 0..edges.len() {
        let want: Vec<Option<View>> = singles
            .iter()
            .map(|r| r[i].as_ref().ok().copied().flatten().map(|d| any_view(&d)))
            .collect();
        hits += want.iter().flatten().count();
        if singles.iter().any(|r| r[i].is_err()) && want.iter().any(|c| c.is_some()) {
            ctx.label("command beside an error");
        }
        let ok = match &got[i] {
            Out::Slots(v) => {
                v.len() == want.len()
                    && v.iter().zip(&want).all(|(g, w)| match (g, w) {
                        (Some(g), Some(w)) => same_view(g, w),
                        (None, None) => true,
                        _ => false,
                    })
            }
            Out::Flat(v) => {
                let w: Vec<View> = want.iter().flatten().copied().collect();
                v.len() == w.len() && v.iter().zip(&w).all(|(g, w)| same_view(g, w))
            }
            Out::PinError => false,
        };
        ensure!(
            ok,
            "multi-receiver {:?} {:?}@{} Hz, form {}: edge {} gives {:?}, separate receivers {:?}: {}",
            e.protos,
            e.mono,
            f,
            ["event_generic", "event_generic_iter", "event", "event_iter"][how as usize],
            i,
            got[i],
            want,
            show(&edges[..=i])
        );
    }
    ctx.nontrivial = hits > 0;
    if hits > 1 {
        ctx.label("several commands");
    }
    Ok(())
}

fn rate_for(s: &mut Src, e: &Entry) -> u32 {
    match e.mono {
        Mono::U32 | Mono::U64 => hist::rate(s),
        _ => 1_000_000,
    }
}

fn c09_frames(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let e = s.pick(table());
    let f = rate_for(s, e);
    let how = s.below(4);
    let w = line(s, e, f, ctx);
    ctx.sample(|| format!("{:?} {:?}@{}: {}", e.protos, e.mono, f, show(&w.edges)));
    compare(e, f, how, &w.edges, ctx)
}

fn c09_hist(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let e = s.pick(table());
    let f = rate_for(s, e);
    let how = s.below(4);
    let p = *s.pick(e.protos);
    let w = history(s, p, f, &Cfg::wild(e.mono.max()), ctx);
    ctx.sample(|| format!("{:?} {:?}@{}: {}", e.protos, e.mono, f, show(&w.edges)));
    compare(e, f, how, &w.edges, ctx)
}

/// Every tuple, every form, a frame for every member in turn.
fn c09_tuples(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let t = table();
    let i = s.below(4 * t.len() as u64);
    let e = &t[(i / 4) as usize];
    let how = i % 4;
    let f = rate_for(s, e);
    let cfg = Cfg::alternating(e.mono.max());
    let mut w = Wire::new(f);
    for p in e.protos {
        let wins = Wins::new(p.fam(), f);
        hist::gap_then_rise(s, &mut w, &cfg);
        let bits = wellformed_bits(*p, s);
        let (v, _) = frame(s, &wins, bits, Jit::Full);
        w.pulses(&v);
        if p.is_nec() {
            hist::gap_then_rise(s, &mut w, &cfg);
            let (v, _) = repeat_code(s, &wins, Jit::Full);
            w.pulses(&v);
        }
    }
    ctx.sample(|| format!("{:?} {:?}@{} form {}", e.protos, e.mono, f, how));
    compare(e, f, how, &w.edges, ctx)
}

pub fn laws() -> Vec<Law> {
    let n = 4 * table().len() as u64;
    vec![
        Law { prop: "C09", name: "tuples", kind: Kind::Exhaustive(n, 20, 600), rule: "every instantiated tuple (all 49 pairs, 3..6 in two cyclic orders, duplicates, all clocks) x 4 forms, a frame for every member; non-trivial: a command is due", run: c09_tuples },
        Law { prop: "C09", name: "frames", kind: Kind::Random(150_000, 4_000_000), rule: "frames of the members mixed with junk; non-trivial: a command is due", run: c09_frames },
        Law { prop: "C09", name: "histories", kind: Kind::Random(60_000, 1_500_000), rule: "wild histories (not alternating)", run: c09_hist },
    ]
}
