//! C13 senders play the encoded waveform, C14 what is sent is received.

use std::cell::Cell;
use std::rc::Rc;

use infrared::protocol::{AppleNec, Nec, Nec16, NecDebug, Rc5, Rc6, SamsungNec};
use infrared::receiver::{DecoderBuilder, NoPin, PeriodicPoll, Receiver};
use infrared::remotecontrol::{
    nec::{SamsungTv, SpecialForMp3},
    rc5::CdPlayer,
    Action, Button, RemoteControlModel,
};
use infrared::sender::{PulsedataSender, Sender, Status};

use crate::dut;
use crate::engine::{Ctx, Kind, Law, Outcome, Src};
use crate::ensure;
use crate::laws::codec::{any_cmd, label};
use crate::hist;
use crate::spec::*;

pub struct TestPwm {
    pub on: Rc<Cell<bool>>,
}
impl embedded_hal::PwmPin for TestPwm {
    type Duty = u16;
    fn disable(&mut self) {
        self.on.set(false)
    }
    fn enable(&mut self) {
        self.on.set(true)
    }
    fn get_duty(&self) -> u16 {
        0
    }
    fn get_max_duty(&self) -> u16 {
        1
    }
    fn set_duty(&mut self, _: u16) {}
}

/// Level of the line k ticks after a load (tick 0 is the first one); None: over.
pub struct Playback {
    cum: Vec<u64>,
}
impl Playback {
    pub fn new(v: &[u64]) -> Self {
        let mut t = 0;
        Playback {
            cum: v
                .iter()
                .map(|d| {
                    t += d;
                    t
                })
                .collect(),
        }
    }
    /// Tick number of the last edge
    pub fn end(&self) -> u64 {
        *self.cum.last().unwrap_or(&0)
    }
    pub fn level(&self, k: u64) -> bool {
        // edges at or before k
        self.cum.iter().filter(|t| **t <= k).count() % 2 == 1
    }
}

pub trait AnySender {
    fn load(&mut self, d: &Dec);
    /// Advance; None: idle
    fn tick(&mut self) -> (bool, Option<Status>);
    fn reset(&mut self) -> bool;
    fn buffer(&self) -> Vec<u64>;
    fn raw(&self) -> bool;
}

struct RawS<const F: u32, const S: usize> {
    s: PulsedataSender<S>,
    t: u32,
}
macro_rules! load_it {
    ($s:expr, $m:ident, $d:expr $(, $f:ident)?) => {
        match $d.p {
            P::Nec => $s.$m::<Nec $(, $f)?>(&dut::nec($d)),
            P::Nec16 => $s.$m::<Nec16 $(, $f)?>(&dut::nec16($d)),
            P::Samsung => $s.$m::<SamsungNec $(, $f)?>(&dut::samsung($d)),
            P::Apple => $s.$m::<AppleNec $(, $f)?>(&dut::apple($d)),
            P::Debug => $s.$m::<NecDebug $(, $f)?>(&dut::debug($d)),
            P::Rc5 => $s.$m::<Rc5 $(, $f)?>(&dut::rc5($d)),
            P::Rc6 => $s.$m::<Rc6 $(, $f)?>(&dut::rc6($d)),
            _ => panic!("harness: no encoder"),
        }
    };
}
impl<const F: u32, const S: usize> AnySender for RawS<F, S> {
    fn load(&mut self, d: &Dec) {
        load_it!(self.s, load_command, d, F)
    }
    fn tick(&mut self) -> (bool, Option<Status>) {
        let st = self.s.tick(self.t);
        self.t = self.t.wrapping_add(1);
        (st == Status::Transmit(true), Some(st))
    }
    fn reset(&mut self) -> bool {
        self.s.reset();
        true
    }
    fn buffer(&self) -> Vec<u64> {
        self.s.buffer().iter().map(|x| u64::from(*x)).collect()
    }
    fn raw(&self) -> bool {
        true
    }
}
struct PwmS<const F: u32, const S: usize> {
    s: Sender<TestPwm, F, S>,
    on: Rc<Cell<bool>>,
}
impl<const F: u32, const S: usize> AnySender for PwmS<F, S> {
    fn load(&mut self, d: &Dec) {
        load_it!(self.s, load, d)
    }
    fn tick(&mut self) -> (bool, Option<Status>) {
        self.s.tick();
        (self.on.get(), None)
    }
    fn reset(&mut self) -> bool {
        false
    }
    fn buffer(&self) -> Vec<u64> {
        self.s.buffer().iter().map(|x| u64::from(*x)).collect()
    }
    fn raw(&self) -> bool {
        false
    }
}
fn raw<const F: u32, const S: usize>(t: u32) -> Box<dyn AnySender> {
    Box::new(RawS::<F, S> { s: PulsedataSender::new(), t })
}
fn pwm<const F: u32, const S: usize>() -> Box<dyn AnySender> {
    let on = Rc::new(Cell::new(false));
    Box::new(PwmS::<F, S> { s: Sender::new(TestPwm { on: on.clone() }), on })
}

pub const SEND_HZ: [u32; 6] = [40_000, 20_000, 38_000, 44_100, 100_000, 1_000_000];

/// NEC needs 68 entries; RC5 at most 28, RC6 at most 44.
pub const SIZES: [usize; 5] = [68, 69, 96, 128, 257];

pub fn sender(_: &mut Src, is_pwm: bool, f: u32, size: usize, t: u32) -> Box<dyn AnySender> {
    any_sender(is_pwm, f, size, t)
}

pub fn any_sender(is_pwm: bool, f: u32, size: usize, t: u32) -> Box<dyn AnySender> {
    macro_rules! sizes {
        ($f:literal) => {
            match (size, is_pwm) {
                (28, false) => raw::<$f, 28>(t),
                (44, false) => raw::<$f, 44>(t),
                (68, false) => raw::<$f, 68>(t),
                (69, false) => raw::<$f, 69>(t),
                (96, false) => raw::<$f, 96>(t),
                (128, false) => raw::<$f, 128>(t),
                (257, false) => raw::<$f, 257>(t),
                (28, true) => pwm::<$f, 28>(),
                (44, true) => pwm::<$f, 44>(),
                (68, true) => pwm::<$f, 68>(),
                (69, true) => pwm::<$f, 69>(),
                (96, true) => pwm::<$f, 96>(),
                (128, true) => pwm::<$f, 128>(),
                (257, true) => pwm::<$f, 257>(),
                _ => panic!("harness: no sender of size {}", size),
            }
        };
    }
    match f {
        20_000 => sizes!(20_000),
        38_000 => sizes!(38_000),
        40_000 => sizes!(40_000),
        44_100 => sizes!(44_100),
        100_000 => sizes!(100_000),
        #[cfg(feature = "hirate")]
        1_000_000 => sizes!(1_000_000),
        _ => panic!("harness: no sender at {}", f),
    }
}

fn start_ts(s: &mut Src) -> u32 {
    match s.below(4) {
        0 => 0,
        1 => u32::MAX - s.below(4000) as u32,
        2 => u32::MAX - s.below(100) as u32,
        _ => s.bits(32) as u32,
    }
}

/// Ticks needed are many at 1 MHz
fn send_rate(s: &mut Src) -> u32 {
    match s.below(16) {
        0 if cfg!(feature = "hirate") => 1_000_000,
        0..=2 => 100_000,
        k => SEND_HZ[(k % 4) as usize],
    }
}

fn c13_play(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let is_pwm = s.bool();
    let f = send_rate(s);
    let protos: &[P] = match s.below(6) {
        0 => &[P::Rc5],
        1 => &[P::Rc5, P::Rc6],
        _ => &ENCODABLE,
    };
    let size = match protos.len() {
        1 => 28,
        2 => 44,
        _ => *s.pick(&SIZES),
    };
    let t0 = start_ts(s);
    let mut snd = sender(s, is_pwm, f, size, t0);
    ctx.label(if is_pwm { "pwm" } else { "raw" });
    let mut log = format!("{} sender of size {} at {} Hz, first timestamp {}:", if is_pwm { "pwm" } else { "raw" }, size, f, t0);
    // off before anything is loaded
    let idle_before = s.below(50);
    for _ in 0..idle_before {
        let (on, st) = snd.tick();
        ensure!(!on && st.is_none_or(|x| x == Status::Idle), "{} output on={} status {:?} with nothing loaded", log, on, st);
    }
    let n = s.range(1, 3);
    for i in 0..n {
        let p = *s.pick(protos);
        let d = any_cmd(s, p);
        ctx.label(label(p));
        let wave = dut::encode_vec(f, &d);
        let pb = Playback::new(&wave);
        if s.chance(1, 4) {
            // thought better of before it started
            for _ in 0..s.range(1, 3) {
                let q = *s.pick(protos);
                let e = any_cmd(s, q);
                snd.load(&e);
                log.push_str(&format!(" load {:?};", e));
                let w = dut::encode_vec(f, &e);
                ensure!(snd.buffer() == w, "{} buffer is {:?}, encoder says {:?}", log, snd.buffer(), w);
            }
            ctx.label("replaced before the start");
        }
        snd.load(&d);
        log.push_str(&format!(" load {:?};", d));
        ensure!(snd.buffer() == wave, "{} buffer is {:?}, encoder says {:?}", log, snd.buffer(), wave);
        // what happens during this frame
        let plan = s.below(4);
        let cut = if plan == 1 { s.range(1, pb.end().max(2) - 1) } else { u64::MAX };
        let mut k = 0;
        // at the last edge the sender may already say idle; one tick later it has to
        let mut cutted = false;
        while k <= pb.end() {
            if k == cut {
                cutted = true;
                if snd.raw() {
                    if s.bool() {
                        snd.reset();
                        log.push_str(&format!(" reset at tick {};", k));
                        for j in 0..s.below(40) {
                            let (on, st) = snd.tick();
                            ensure!(!on && st == Some(Status::Idle), "{} output on={} status {:?}, {} ticks after a reset", log, on, st, j);
                        }
                    } else {
                        log.push_str(&format!(" restarted at tick {};", k));
                    }
                    break;
                }
                // ignored while on air
                let q = *s.pick(protos);
                let e = any_cmd(s, q);
                log.push_str(&format!(" load {:?} while on air at tick {};", e, k));
                snd.load(&e);
            }
            let (on, st) = snd.tick();
            let want = pb.level(k);
            ensure!(on == want, "{} output is {} at tick {}, the waveform {:?} says {}", log, on, k, wave, want);
            if let Some(st) = st {
                let ok = match st {
                    Status::Transmit(x) => x == want,
                    Status::Idle => k == pb.end(),
                    _ => false,
                };
                ensure!(ok, "{} status {:?} at tick {} of {:?}", log, st, k, wave);
            }
            k += 1;
            ctx.inner += 1;
        }
        if cutted && snd.raw() {
            ctx.label("restart");
            continue;
        }
        if cutted {
            ctx.label("load on air");
        }
        // off and idle afterwards
        for j in 0..s.range(1, 60) {
            let (on, st) = snd.tick();
            ensure!(!on && st.is_none_or(|x| x == Status::Idle), "{} output on={} status {:?}, {} ticks after the end", log, on, st, j + 1);
        }
        ctx.nontrivial = true;
        if i > 0 {
            ctx.label("second frame");
        }
    }
    ctx.sample(|| log.clone());
    Ok(())
}

/// A command loaded long after the end, and one that stays unloaded for long.
fn c13_quiet(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let is_pwm = s.bool();
    let t0 = start_ts(s);
    let mut snd = sender(s, is_pwm, 20_000, 128, t0);
    let p = *s.pick(&ENCODABLE);
    let d = any_cmd(s, p);
    ctx.nontrivial = true;
    ctx.sample(|| format!("pwm {} {:?} from {}", is_pwm, d, t0));
    if s.bool() {
        snd.load(&d);
        let end = Playback::new(&dut::encode_vec(20_000, &d)).end();
        for _ in 0..=end {
            snd.tick();
        }
    }
    for i in 0..s.range(1000, 70_000) {
        let (on, st) = snd.tick();
        ensure!(!on && st.is_none_or(|x| x == Status::Idle), "sender (pwm {}) is on={} status {:?} at idle tick {}", is_pwm, on, st, i);
        ctx.inner += 1;
    }
    let wave = dut::encode_vec(20_000, &d);
    let pb = Playback::new(&wave);
    snd.load(&d);
    for k in 0..=pb.end() {
        let (on, _) = snd.tick();
        ensure!(on == pb.level(k), "sender (pwm {}) after a long pause: {} at tick {} of {:?}", is_pwm, on, k, wave);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C14

fn loop_polled<Pr>(f: u32, levels: &[bool]) -> Vec<Dec>
where
    Pr: DecoderBuilder<u32>,
    Dec: From<Pr::Cmd>,
{
    let mut r: PeriodicPoll<Pr, NoPin, Dec> = PeriodicPoll::new(f);
    levels.iter().filter_map(|l| r.poll(*l).ok().flatten()).collect()
}

fn edges_of(levels: &[bool]) -> Vec<Edge> {
    let mut prev = false;
    let mut n = 0;
    let mut v = vec![];
    for l in levels {
        n += 1;
        if *l != prev {
            v.push(Edge { rising: *l, dt: n });
            n = 0;
            prev = *l;
        }
    }
    v
}

fn loop_rate(s: &mut Src, p: P) -> u32 {
    let f = *s.pick(&[40_000, 44_100, 100_000, 20_000, 38_000]);
    if p == P::Rc6 {
        f.max(40_000)
    } else {
        f
    }
}

fn c14_loop(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ENCODABLE);
    let f = loop_rate(s, p);
    let is_pwm = s.bool();
    let t0 = start_ts(s);
    let mut snd = sender(s, is_pwm, f, 128, t0);
    let mut levels = vec![];
    let mut sent: Vec<Dec> = vec![];
    let n = s.range(1, 4);
    let idle = to_ticks(IDLE_US, f) + 5;
    for _ in 0..s.below(100) {
        levels.push(snd.tick().0);
    }
    for _ in 0..n {
        let d = if !sent.is_empty() && s.chance(1, 3) { *sent.last().unwrap() } else { any_cmd(s, p) };
        snd.load(&d);
        sent.push(d);
        // longer than any frame of the protocol and the idle time
        let frame: u64 = dut::encode_vec(f, &d).iter().sum();
        let gap = if s.below(8) == 1 {
            hist::alias(s, f, &hist::Cfg::polled(f)).max(idle) - s.below(2)
        } else {
            idle + s.below(idle)
        };
        for _ in 0..frame + gap {
            levels.push(snd.tick().0);
        }
    }
    ctx.nontrivial = n > 1;
    ctx.label(label(p));
    ctx.inner += levels.len() as u64;
    ctx.sample(|| format!("pwm {} at {}: {:?}", is_pwm, f, sent));
    let got = crate::by_proto!(p, T => loop_polled::<T>(f, &levels));
    ensure!(got == sent, "sent (pwm {}) at {} Hz: {:?}, polled receiver reports {:?}", is_pwm, f, sent, got);
    let m = *s.pick(&[dut::Mono::U32, dut::Mono::U64]);
    let fr = *s.pick(&dut::FRONTS);
    let r = dut::run(p, m, fr, f, &edges_of(&levels));
    let got: Vec<Dec> = crate::laws::cmds(&r).into_iter().map(|x| x.1).collect();
    ensure!(got == sent, "sent (pwm {}) at {} Hz: {:?}, {:?} {:?} receiver reports {:?}", is_pwm, f, sent, m, fr, got);
    Ok(())
}

/// The same line, receivers for the other protocols of the same sender see nothing of theirs: mixed
/// protocols through one sender.
fn c14_mixed(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let f = *s.pick(&[40_000u32, 44_100, 100_000]);
    let is_pwm = s.bool();
    let mut snd = sender(s, is_pwm, f, 128, 5);
    let mut levels = vec![];
    let mut sent: Vec<Dec> = vec![];
    let idle = to_ticks(IDLE_US, f) + 5;
    for _ in 0..s.range(2, 5) {
        let p = *s.pick(&[P::Nec, P::Samsung, P::Rc5, P::Rc6]);
        let d = any_cmd(s, p);
        snd.load(&d);
        sent.push(d);
        let frame: u64 = dut::encode_vec(f, &d).iter().sum();
        for _ in 0..frame + idle {
            levels.push(snd.tick().0);
        }
    }
    ctx.nontrivial = true;
    ctx.sample(|| format!("pwm {} at {}: {:?}", is_pwm, f, sent));
    let edges = edges_of(&levels);
    for p in [P::Nec, P::Samsung, P::Rc5, P::Rc6] {
        let want: Vec<Dec> = sent.iter().filter(|d| d.p == p).copied().collect();
        let r = dut::run(p, dut::Mono::U32, dut::Front::Event, f, &edges);
        let got: Vec<Dec> = crate::laws::cmds(&r).into_iter().map(|x| x.1).collect();
        ensure!(got == want, "sent at {} Hz: {:?}, the {:?} receiver reports {:?}", f, sent, p, got);
    }
    Ok(())
}

fn buttons<Rm, Pr>(s: &mut Src, f: u32, table: &[Action], dec: fn(&Rm::Cmd) -> Dec, ctx: &mut Ctx) -> Outcome
where
    Rm: RemoteControlModel,
    Pr: infrared::Protocol<Cmd = Rm::Cmd> + DecoderBuilder<u32>,
{
    let is_pwm = s.bool();
    let mut snd = sender(s, is_pwm, f, 128, 0);
    let idle = to_ticks(IDLE_US, f) + 5;
    let mut pressed = vec![];
    let mut levels = vec![];
    for _ in 0..s.range(1, 4) {
        let a = *s.pick(table);
        let Some(cmd) = Rm::encode(&a) else { return Err(format!("{}: no command for {:?}", Rm::MODEL, a)) };
        let d = dec(&cmd);
        snd.load(&d);
        pressed.push(a);
        let frame: u64 = dut::encode_vec(f, &d).iter().sum();
        for _ in 0..frame + idle {
            levels.push(snd.tick().0);
        }
    }
    ctx.nontrivial = true;
    ctx.label(Rm::MODEL);
    ctx.sample(|| format!("{} at {}: {:?}", Rm::MODEL, f, pressed));
    let mut poll: PeriodicPoll<Pr, NoPin, Button<Rm>> = PeriodicPoll::new(f);
    let mut got = vec![];
    for l in &levels {
        if let Ok(Some(b)) = poll.poll(*l) {
            got.push(b.action());
        }
    }
    let want: Vec<Option<Action>> = pressed.iter().map(|a| Some(*a)).collect();
    ensure!(got == want, "{} at {} Hz: pressed {:?}, polled receiver reports {:?}", Rm::MODEL, f, pressed, got);
    let mut r: Receiver<Pr, NoPin, u32, Button<Rm>> = Receiver::new(f);
    let mut r2 = infrared::receiver().protocol::<Pr>().remotecontrol(Rm::default()).frequency(f).build();
    let mut got = vec![];
    let mut got2 = vec![];
    for e in edges_of(&levels) {
        if let Ok(Some(b)) = r.event(e.dt as u32, e.rising) {
            got.push(b.action());
        }
        if let Ok(Some(b)) = r2.event(e.dt as u32, e.rising) {
            got2.push(b.action());
        }
    }
    ensure!(got == want && got2 == want, "{} at {} Hz: pressed {:?}, event receivers report {:?} and {:?}", Rm::MODEL, f, pressed, got, got2);
    Ok(())
}

fn c14_buttons(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    use crate::laws::misc::{acts, CD_PLAYER, MP3, SAMSUNG_TV};
    let f = *s.pick(&[40_000, 20_000, 44_100, 100_000]);
    match s.below(3) {
        0 => buttons::<SamsungTv, SamsungNec>(s, f, &acts(SAMSUNG_TV), |c| (*c).into(), ctx),
        1 => buttons::<SpecialForMp3, Nec>(s, f, &acts(MP3), |c| (*c).into(), ctx),
        _ => buttons::<CdPlayer, Rc5>(s, f, &acts(CD_PLAYER), |c| (*c).into(), ctx),
    }
}

pub fn laws() -> Vec<Law> {
    vec![
        Law { prop: "C13", name: "play", kind: Kind::Random(8_000, 250_000), rule: "1..3 loads into raw/PWM senders of 7 sizes at 6 rates, ticked from any counter value; loads on air, restarts, resets; non-trivial: a frame was played to its end", run: c13_play },
        Law { prop: "C13", name: "quiet", kind: Kind::Random(1_500, 30_000), rule: "long idle time before and after", run: c13_quiet },
        Law { prop: "C14", name: "loopback", kind: Kind::Random(25_000, 150_000), rule: "1..4 commands through raw/PWM sender, polled receiver and event receivers; non-trivial: at least two", run: c14_loop },
        Law { prop: "C14", name: "mixed", kind: Kind::Random(12_000, 80_000), rule: "commands of several protocols through one sender", run: c14_mixed },
        Law { prop: "C14", name: "buttons", kind: Kind::Random(20_000, 150_000), rule: "buttons of the three sendable remotes pressed and received", run: c14_buttons },
    ]
}
