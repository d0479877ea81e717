//! C26 a user's own types at the extension points are treated like the built-in ones.

use std::cell::Cell;
use std::rc::Rc;

use infrared::cmd::{AddressCommand, AnyCommand, Command};
use infrared::protocol::nec::{NecCommand, NecCommandVariant, NecPulseLen, SamsungNecCommand};
use infrared::protocol::Nec;
use infrared::receiver::{
    time::PulseSpans, DecoderBuilder, MultiReceiver, NoPin, ProtocolDecoder, Receiver, State,
};
use infrared::remotecontrol::{Action, Button, DeviceType, RemoteControlModel};
use infrared::sender::{ProtocolEncoder, PulsedataSender, Sender, Status};
use infrared::{Protocol, ProtocolId};

use crate::dut::{self, Front, Mono, Res, Ticks};
use crate::engine::{Ctx, Kind, Law, Outcome, Src};
use crate::ensure;
use crate::hist::{clock, gap_then_rise, history, rate, show, Cfg};
use crate::laws::codec::view;
use crate::laws::decode::front;
use crate::laws::fronts::{script_model, ScriptedDecoder};
use crate::laws::send::{Playback, TestPwm};
use crate::spec::*;

// -------------------------------------------------------------------------------- a NEC command variant

/// K & 1: Samsung timing. K >> 1: which words are commands (all, two thirds of them, few).
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Mine<const K: usize> {
    word: u32,
    rep: bool,
}

fn good(k: usize, bits: u32) -> bool {
    match k >> 1 {
        0 => true,
        1 => bits.wrapping_mul(0x9E37_79B1) >> 8 & 3 != 0,
        _ => bits.count_ones() % 4 == 1,
    }
}
fn scramble(bits: u32) -> u32 {
    bits.rotate_left(11) ^ 0x1234_5678
}

impl<const K: usize> NecCommandVariant for Mine<K> {
    const PULSE_DISTANCE: &'static NecPulseLen =
        if K & 1 == 0 { NecCommand::PULSE_DISTANCE } else { SamsungNecCommand::PULSE_DISTANCE };
    fn validate(bits: u32) -> bool {
        good(K, bits)
    }
    fn unpack(bits: u32, repeat: bool) -> Option<Self> {
        good(K, bits).then_some(Mine { word: scramble(bits), rep: repeat })
    }
    fn pack(&self) -> u32 {
        (self.word ^ 0x1234_5678).rotate_right(11)
    }
}
impl<const K: usize> Command for Mine<K> {
    fn is_repeat(&self) -> bool {
        self.rep
    }
}
impl<const K: usize> AddressCommand for Mine<K> {
    const ID: ProtocolId = ProtocolId::Unknown;
    fn address(&self) -> u32 {
        self.word >> 16
    }
    fn command(&self) -> u32 {
        self.word & 0xffff
    }
    fn create(addr: u32, cmd: u32) -> Option<Self> {
        (addr < 1 << 16 && cmd < 1 << 16).then_some(Mine { word: addr << 16 | cmd, rep: false })
    }
}
fn mine(word: u32, rep: bool) -> Dec {
    Dec { p: P::Debug, a: 0, c: 0, x: word.into(), rep, flag: true }
}
impl<const K: usize> From<Mine<K>> for Dec {
    fn from(c: Mine<K>) -> Dec {
        mine(c.word, c.rep)
    }
}
/// What is due when the 32 bits have been received.
fn due(k: usize, bits: u32, rep: bool) -> Option<Dec> {
    good(k, bits).then(|| mine(scramble(bits), rep))
}

macro_rules! by_k {
    ($k:expr, $K:ident => $e:expr) => {
        match $k {
            0 => { const $K: usize = 0; $e }
            1 => { const $K: usize = 1; $e }
            2 => { const $K: usize = 2; $e }
            3 => { const $K: usize = 3; $e }
            4 => { const $K: usize = 4; $e }
            _ => { const $K: usize = 5; $e }
        }
    };
}

/// Frames and repeat codes of a user's NEC variant.
fn c26_nec_variant(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let k = s.below(6) as usize;
    let (mut m, mut f) = clock(s);
    if matches!(m, Mono::F32 | Mono::F64) {
        (m, f) = (Mono::U32, 1_000_000);
    }
    let fr = front(s, m, f);
    if matches!(fr, Front::Instant | Front::PinInstant) {
        // the gaps would not fit 32-bit timestamps
        m = Mono::U64;
    }
    let fam = if k & 1 == 0 { Fam::NecStd } else { Fam::NecSam };
    let wins = Wins::new(fam, f);
    let cfg = Cfg::alternating(1 << 30);
    let mut w = Wire::new(f);
    let mut want: Vec<(usize, Dec)> = vec![];
    let mut last: Option<u32> = None;
    let mut told = vec![];
    for _ in 0..s.range(1, 5) {
        let first = gap_then_rise(s, &mut w, &cfg);
        let (bits, rep) = match last {
            Some(b) if s.below(3) == 0 => (b, true),
            _ => (s.bits(32) as u32, false),
        };
        let (v, done) = if rep { repeat_code(s, &wins, Jit::Full) } else { frame(s, &wins, bits.into(), Jit::Full) };
        w.pulses(&v);
        last = Some(bits);
        told.push((bits, rep));
        if let Some(d) = due(k, bits, rep) {
            want.push((first + done + 1, d));
        }
    }
    ctx.nontrivial = !want.is_empty();
    ctx.label(if k & 1 == 0 { "nec timing" } else { "samsung timing" });
    if want.len() < told.len() {
        ctx.label("words that are no commands");
    }
    ctx.sample(|| format!("variant {} {:?}@{} {:?}: {:x?}", k, m, f, fr, told));
    let r = by_k!(k, K => dut::run_user::<Nec<Mine<K>>>(m, fr, f, &w.edges));
    let got = super::cmds(&r);
    ensure!(
        got == want,
        "own NEC variant {} {:?}@{} Hz {:?}: words {:x?} (repeated?) give {:?}, expected {:?}: {}",
        k,
        m,
        f,
        fr,
        told,
        got,
        want,
        show(&w.edges)
    );
    // the same through the models of a remote
    let buttons: Vec<(u32, u32, bool, Option<Action>)> = by_k!(k, K => buttons_of::<K>(f, &w.edges));
    let expect: Vec<_> = want
        .iter()
        .map(|(_, d)| {
            let (a, c) = ((d.x >> 16) as u32, (d.x & 0xffff) as u32);
            (a, c, d.rep, (a == 0x1234).then(|| look(SMALL, c)).flatten())
        })
        .collect();
    ensure!(buttons == expect, "own NEC variant {} at {} Hz: buttons {:?}, expected {:?}", k, f, buttons, expect);
    Ok(())
}

fn buttons_of<const K: usize>(f: u32, edges: &[Edge]) -> Vec<(u32, u32, bool, Option<Action>)> {
    let mut r: Receiver<Nec<Mine<K>>, NoPin, u32, Button<NecRemote<K>>> = Receiver::new(f);
    edges
        .iter()
        .filter_map(|e| r.event(e.dt as u32, e.rising).ok().flatten())
        .map(|b| (b.command().address(), b.command().command(), b.is_repeat(), b.action()))
        .collect()
}

/// Any history: what a user's variant reports follows from what the built-in ones say about it.
fn c26_nec_histories(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let k = 2 * s.below(3) as usize;
    let f = rate(s);
    let cfg = if s.bool() { Cfg::alternating(u32::MAX.into()) } else { Cfg::wild(u32::MAX.into()) };
    let p = if s.bool() { P::Nec } else { P::Debug };
    let w = history(s, p, f, &cfg, ctx);
    let fr = *s.pick(&[Front::Event, Front::EventEdge, Front::Pin, Front::Decoder]);
    let bits = dut::run(P::Debug, Mono::U32, Front::Event, f, &w.edges);
    let reps = dut::run(P::Nec, Mono::U32, Front::Event, f, &w.edges);
    let want: Vec<Res> = bits
        .iter()
        .zip(&reps)
        .map(|(b, r)| match (b, r) {
            (Ok(Some(b)), Ok(Some(r))) => Ok(due(k, b.x as u32, r.rep)),
            (Ok(None), Ok(None)) => Ok(None),
            (Err(x), Err(y)) if x == y => Err(*x),
            _ => Err(infrared::receiver::DecodingError::RemoteControlError),
        })
        .collect();
    ctx.nontrivial = want.iter().any(|r| matches!(r, Ok(Some(_))));
    ctx.sample(|| format!("variant {} @{}: {}", k, f, show(&w.edges)));
    let got = by_k!(k, K => dut::run_user::<Nec<Mine<K>>>(Mono::U32, fr, f, &w.edges));
    for (i, (a, b)) in got.iter().zip(&want).enumerate() {
        ensure!(
            a == b,
            "own NEC variant {} at {} Hz {:?}: edge {} gives {:?}; NecDebug says {:?}, Nec {:?}: {}",
            k,
            f,
            fr,
            i,
            a,
            bits[i],
            reps[i],
            show(&w.edges[..=i])
        );
    }
    Ok(())
}

fn encoded<const K: usize, const F: u32>(word: u32, rep: bool, b: &mut [u32]) -> usize {
    <Nec<Mine<K>> as ProtocolEncoder<F>>::encode(&Mine { word, rep }, b)
}

/// Encoding a user's variant gives the frame of its packed bits.
fn c26_nec_encoder(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let k = s.below(6) as usize;
    let bits = s.bits(32) as u32;
    let rep = s.bool();
    let word = scramble(bits);
    let f = *s.pick(&[20_000u32, 40_000, 44_100, 333_333, 1_000_000]);
    let mut b = [7u32; 80];
    let n = by_k!(k, K => match f {
        20_000 => encoded::<K, 20_000>(word, rep, &mut b),
        40_000 => encoded::<K, 40_000>(word, rep, &mut b),
        44_100 => encoded::<K, 44_100>(word, rep, &mut b),
        333_333 => encoded::<K, 333_333>(word, rep, &mut b),
        _ => encoded::<K, 1_000_000>(word, rep, &mut b),
    });
    // the same bits from a built-in variant
    let d = Dec { x: bits.into(), p: P::Debug, a: 0, c: 0, rep: false, flag: false };
    let std = dut::encode_vec(f, &d);
    ctx.nontrivial = true;
    ctx.sample(|| format!("variant {} word {:#x} at {}", k, bits, f));
    ensure!(n == std.len(), "own NEC variant {}: {} entries for {:#010x} at {} Hz, NecDebug has {}", k, n, bits, f, std.len());
    let sam = dut::encode_vec(f, &Dec { p: P::Samsung, a: 5, c: 5, x: 0, rep: false, flag: false });
    for i in 0..n {
        // only the header is different
        let want = if k & 1 == 1 && i < 3 { sam[i] } else { std[i] };
        ensure!(
            u64::from(b[i]) == want,
            "own NEC variant {}: entry {} of {:#010x} at {} Hz is {}, expected {}",
            k,
            i,
            bits,
            f,
            b[i],
            want
        );
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- an own encoder

pub struct Own;
pub struct OwnCmd {
    wave: Vec<u32>,
    room: Cell<usize>,
    calls: Cell<u32>,
}
impl Protocol for Own {
    type Cmd = OwnCmd;
}
impl<const F: u32> ProtocolEncoder<F> for Own {
    type EncoderData = u32;
    const DATA: u32 = F;
    fn encode(cmd: &OwnCmd, buf: &mut [u32]) -> usize {
        cmd.room.set(buf.len());
        cmd.calls.set(cmd.calls.get() + 1);
        let n = cmd.wave.len().min(buf.len());
        buf[..n].copy_from_slice(&cmd.wave[..n]);
        n
    }
}
enum AnyOwn<const S: usize> {
    Raw(PulsedataSender<S>, u32),
    Pwm(Sender<TestPwm, 40_000, S>, Rc<Cell<bool>>),
}
impl<const S: usize> AnyOwn<S> {
    fn load(&mut self, c: &OwnCmd) {
        match self {
            AnyOwn::Raw(x, _) => x.load_command::<Own, 40_000>(c),
            AnyOwn::Pwm(x, _) => x.load::<Own>(c),
        }
    }
    fn buffer(&self) -> &[u32] {
        match self {
            AnyOwn::Raw(x, _) => x.buffer(),
            AnyOwn::Pwm(x, _) => x.buffer(),
        }
    }
    fn tick(&mut self) -> (bool, Option<Status>) {
        match self {
            AnyOwn::Raw(x, t) => {
                let st = x.tick(*t);
                *t = t.wrapping_add(1);
                (st == Status::Transmit(true), Some(st))
            }
            AnyOwn::Pwm(x, on) => {
                x.tick();
                (on.get(), None)
            }
        }
    }
}

fn play_own<const S: usize>(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut snd: AnyOwn<S> = if s.bool() {
        let t = if s.bool() { s.log(u32::MAX.into()) as u32 } else { u32::MAX - s.below(3000) as u32 };
        AnyOwn::Raw(PulsedataSender::new(), t)
    } else {
        let on = Rc::new(Cell::new(false));
        AnyOwn::Pwm(Sender::new(TestPwm { on: on.clone() }), on)
    };
    let mut log = format!("sender of size {}:", S);
    for _ in 0..s.range(1, 3) {
        // starts at once, marks and spaces in turn, ends with a mark
        let marks = match s.below(4) {
            0 => S / 2,
            _ => s.below(S as u64 / 2 + 1) as usize,
        };
        let wave: Vec<u32> =
            (0..2 * marks).map(|i| if i == 0 { 0 } else if s.below(8) == 0 { s.range(1, 400) } else { s.range(1, 12) } as u32).collect();
        let c = OwnCmd { wave: wave.clone(), room: Cell::new(0), calls: Cell::new(0) };
        snd.load(&c);
        log.push_str(&format!(" {:?}", wave));
        ensure!(c.calls.get() > 0, "{}: load does not encode the command", log);
        ensure!(c.room.get() == S, "{}: the encoder is given room for {} of {} entries", log, c.room.get(), S);
        ensure!(snd.buffer() == &wave[..], "{}: buffer is {:?}", log, snd.buffer());
        let v: Vec<u64> = wave.iter().map(|x| u64::from(*x)).collect();
        let pb = Playback::new(&v);
        ctx.nontrivial |= marks > 0;
        for k in 0..=pb.end() + s.below(30) + 1 {
            let (on, st) = snd.tick();
            let want = marks > 0 && pb.level(k);
            ensure!(on == want, "{}: output is {} at tick {}, expected {}", log, on, k, want);
            if let Some(st) = st {
                let ok = match st {
                    Status::Transmit(x) => x == want && k <= pb.end() && marks > 0,
                    Status::Idle => k >= pb.end(),
                    _ => false,
                };
                ensure!(ok, "{}: status {:?} at tick {}", log, st, k);
            }
            ctx.inner += 1;
        }
    }
    ctx.sample(|| log.clone());
    Ok(())
}

/// Senders play what a user's encoder writes, up to frames that fill the buffer.
fn c26_encoder(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    match s.below(6) {
        0 => play_own::<0>(s, ctx),
        1 => play_own::<2>(s, ctx),
        2 => play_own::<8>(s, ctx),
        3 => play_own::<33>(s, ctx),
        4 => play_own::<68>(s, ctx),
        _ => play_own::<300>(s, ctx),
    }
}

// ------------------------------------------------------------- own protocols in receivers and multi ones

pub struct Worded;
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Word(u64);
impl Command for Word {
    fn is_repeat(&self) -> bool {
        self.0 & 0x100 != 0
    }
}
impl AddressCommand for Word {
    const ID: ProtocolId = ProtocolId::Denon;
    fn raw(&self) -> u64 {
        self.0
    }
    fn address(&self) -> u32 {
        (self.0 >> 32) as u32
    }
    fn command(&self) -> u32 {
        self.0 as u32
    }
    fn create(addr: u32, cmd: u32) -> Option<Self> {
        (cmd % 5 != 3).then_some(Word(u64::from(addr) << 32 | u64::from(cmd)))
    }
}
impl Protocol for Worded {
    type Cmd = Word;
}
pub struct WordedDecoder<M: Ticks>(ScriptedDecoder<M>);
impl<M: Ticks> DecoderBuilder<M> for Worded {
    type Decoder = WordedDecoder<M>;
    fn build(freq: u32) -> Self::Decoder {
        WordedDecoder(<crate::laws::fronts::Scripted as DecoderBuilder<M>>::build(freq))
    }
}
impl<M: Ticks> ProtocolDecoder<Worded, M> for WordedDecoder<M> {
    fn event(&mut self, edge: bool, dt: M::Duration) -> State {
        self.0.event(edge, dt)
    }
    fn command(&self) -> Option<Word> {
        self.0.command().map(Word)
    }
    fn reset(&mut self) {
        self.0.reset()
    }
    fn spans(&self) -> &PulseSpans<M> {
        self.0.spans()
    }
}

type View = (ProtocolId, u64, u32, u32, bool);
fn any_of<C: AddressCommand>(c: C) -> View {
    view(AnyCommand::from(c))
}
fn word_view(h: u64) -> View {
    (ProtocolId::Denon, h, (h >> 32) as u32, h as u32, h & 0x100 != 0)
}

/// A multi-receiver over a user's own protocols, next to built-in ones.
fn c26_multi(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let f = rate(s);
    let cfg = if s.bool() { Cfg::alternating(u32::MAX.into()) } else { Cfg::wild(u32::MAX.into()) };
    let w = history(s, P::Nec, f, &cfg, ctx);
    let e = &w.edges;
    ctx.sample(|| format!("@{}: {}", f, show(e)));
    let words: Vec<Option<View>> = script_model(f, e).into_iter().map(|r| r.ok().flatten().map(word_view)).collect();
    fn alone<Pr: DecoderBuilder<u32>>(f: u32, e: &[Edge]) -> Vec<Option<View>>
    where
        Pr::Cmd: AddressCommand,
    {
        let mut r: Receiver<Pr, NoPin, u32> = Receiver::new(f);
        e.iter().map(|e| r.event(e.dt as u32, e.rising).ok().flatten().map(any_of)).collect()
    }
    let (a, b, c) = (alone::<Nec<Mine<0>>>(f, e), alone::<Nec<Mine<4>>>(f, e), alone::<Nec>(f, e));
    ctx.nontrivial = words.iter().chain(&a).any(|x| x.is_some());
    let mut two = MultiReceiver::<2, (Worded, Nec<Mine<0>>), NoPin, u32>::new(f, NoPin);
    let mut four = MultiReceiver::<4, (Nec<Mine<4>>, Worded, Nec, Worded), NoPin, u32>::new(f, NoPin);
    for (i, x) in e.iter().enumerate() {
        let g2 = two.event_generic(x.dt as u32, x.rising).map(|c| c.map(view));
        ensure!(
            g2 == [words[i], a[i]],
            "multi-receiver over own protocols at {} Hz: edge {} gives {:?}, alone {:?}: {}",
            f,
            i,
            g2,
            [words[i], a[i]],
            show(&e[..=i])
        );
        let g4: Vec<View> = four.event_generic_iter(x.dt as u32, x.rising).take(5).map(view).collect();
        let want: Vec<View> = [b[i], words[i], c[i], words[i]].into_iter().flatten().collect();
        ensure!(
            g4 == want,
            "multi-receiver over own protocols at {} Hz: edge {} yields {:?}, alone {:?}: {}",
            f,
            i,
            g4,
            want,
            show(&e[..=i])
        );
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ own remotes

type Table = &'static [(u32, Action)];
fn look(t: Table, code: u32) -> Option<Action> {
    for x in t {
        if x.0 == code {
            return Some(x.1);
        }
    }
    None
}
fn code_of(t: Table, a: Action) -> Option<u32> {
    for x in t {
        if x.1 == a {
            return Some(x.0);
        }
    }
    None
}

const SMALL: Table = &[(0x5678, Action::Power), (0, Action::One), (0xffff, Action::Two)];
/// Codes and actions that occur more than once: the first one counts.
const TWICE: Table = &[
    (7, Action::Up),
    (9, Action::Down),
    (7, Action::Down),
    (11, Action::Up),
    (u32::MAX, Action::BatteryLow),
    (0x0001_0007, Action::Left),
    (3, Action::Right),
    (9, Action::Right),
    (0x8000_0000, Action::Power),
];

pub struct NecRemote<const K: usize>;
impl<const K: usize> Default for NecRemote<K> {
    fn default() -> Self {
        NecRemote
    }
}
impl<const K: usize> RemoteControlModel for NecRemote<K> {
    const PROTOCOL: ProtocolId = ProtocolId::Unknown;
    const ADDRESS: u32 = 0x1234;
    type Cmd = Mine<K>;
    const BUTTONS: Table = SMALL;
}

macro_rules! remote {
    ($n:ident, $a:expr, $t:expr $(, $m:expr, $d:expr)?) => {
        #[derive(Default)]
        pub struct $n;
        impl RemoteControlModel for $n {
            $( const MODEL: &'static str = $m; const DEVTYPE: DeviceType = $d; )?
            const PROTOCOL: ProtocolId = ProtocolId::Denon;
            const ADDRESS: u32 = $a;
            type Cmd = Word;
            const BUTTONS: Table = $t;
        }
    };
}
remote!(Far, u32::MAX, TWICE, "far", DeviceType::BluRayPlayer);
remote!(Near, 0, TWICE);
remote!(Middle, 0x0001_0000, SMALL);
remote!(Empty, 1, &[]);

/// Models with their own idea of decoding or encoding, whatever their table and address say.
fn idea(w: Word) -> Option<Action> {
    [None, Some(Action::Menu), Some(Action::Up), Some(Action::Power), Some(Action::Eq)][(w.0 % 5) as usize]
}
fn other_idea(a: &Action) -> Option<Word> {
    let w = Word(a.to_str().len() as u64 * 0x1_0000_0001);
    (w.0 % 3 != 0).then_some(w)
}
#[derive(Default)]
pub struct OwnDecode;
impl RemoteControlModel for OwnDecode {
    const PROTOCOL: ProtocolId = ProtocolId::Denon;
    const ADDRESS: u32 = 5;
    type Cmd = Word;
    const BUTTONS: Table = SMALL;
    fn decode(cmd: &Word) -> Option<Action> {
        idea(*cmd)
    }
}
#[derive(Default)]
pub struct OwnEncode;
impl RemoteControlModel for OwnEncode {
    const PROTOCOL: ProtocolId = ProtocolId::Denon;
    const ADDRESS: u32 = 6;
    type Cmd = Word;
    const BUTTONS: Table = TWICE;
    fn encode(button: &Action) -> Option<Word> {
        other_idea(button)
    }
}
#[derive(Default)]
pub struct OwnBoth;
impl RemoteControlModel for OwnBoth {
    const PROTOCOL: ProtocolId = ProtocolId::Denon;
    const ADDRESS: u32 = 7;
    type Cmd = Word;
    fn decode(cmd: &Word) -> Option<Action> {
        idea(*cmd)
    }
    fn encode(button: &Action) -> Option<Word> {
        other_idea(button)
    }
}

fn model<R: RemoteControlModel<Cmd = Word>>(s: &mut Src, t: Table, addr: u32, own: (bool, bool)) -> Outcome {
    let a = match s.below(3) {
        0 => s.bits(32) as u32,
        1 => addr ^ 1 << s.below(32),
        _ => addr,
    };
    let c = match s.below(3) {
        0 => s.bits(32) as u32,
        1 if !t.is_empty() => s.pick(t).0 ^ 1 << s.below(32),
        _ if !t.is_empty() => s.pick(t).0,
        _ => s.below(4) as u32,
    };
    let w = Word(u64::from(a) << 32 | u64::from(c));
    let want = if own.0 { idea(w) } else { (a == addr).then(|| look(t, c)).flatten() };
    ensure!(R::decode(&w) == want, "own remote {:#x}: address {:#x} code {:#x} is {:?}, expected {:?}", addr, a, c, R::decode(&w), want);
    let b: Button<R> = w.into();
    ensure!(
        b.action() == want && *b.command() == w && b.is_repeat() == w.is_repeat(),
        "own remote {:#x}: button of {:?} has action {:?}, command {:?}, repeat {}",
        addr,
        w,
        b.action(),
        b.command(),
        b.is_repeat()
    );
    for (_, act) in TWICE.iter().chain(SMALL) {
        let want = if own.1 { other_idea(act) } else { code_of(t, *act).and_then(|c| Word::create(addr, c)) };
        let got = R::encode(act);
        ensure!(got == want, "own remote {:#x}: {:?} encodes as {:?}, expected {:?}", addr, act, got, want);
    }
    Ok(())
}

fn c26_remote(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let which = s.below(7);
    ctx.nontrivial = true;
    ctx.sample(|| format!("own remote {}", which));
    match which {
        0 => model::<Far>(s, TWICE, u32::MAX, (false, false)),
        1 => model::<Near>(s, TWICE, 0, (false, false)),
        2 => model::<Middle>(s, SMALL, 0x0001_0000, (false, false)),
        3 => model::<Empty>(s, &[], 1, (false, false)),
        4 => model::<OwnDecode>(s, SMALL, 5, (true, false)),
        5 => model::<OwnEncode>(s, TWICE, 6, (false, true)),
        _ => model::<OwnBoth>(s, &[], 7, (true, true)),
    }?;
    let w = Word(s.bits(64));
    let v = any_of(w);
    ensure!(v == word_view(w.0), "own command {:?} as AnyCommand: {:?}", w, v);
    Ok(())
}

pub fn laws() -> Vec<Law> {
    vec![
        Law { prop: "C26", name: "nec_variant", kind: Kind::Random(100_000, 2_000_000), rule: "frames and repeat codes of a user's NEC variants, any front end; non-trivial: a command is due", run: c26_nec_variant },
        Law { prop: "C26", name: "nec_histories", kind: Kind::Random(80_000, 2_000_000), rule: "any history, a user's NEC variant against NecDebug and Nec; non-trivial: a report", run: c26_nec_histories },
        Law { prop: "C26", name: "nec_encoder", kind: Kind::Random(200_000, 4_000_000), rule: "any word of a user's NEC variants against the frame of the same bits", run: c26_nec_encoder },
        Law { prop: "C26", name: "encoder", kind: Kind::Random(8_000, 200_000), rule: "senders of several sizes playing a user's encoder; non-trivial: a frame that is not empty", run: c26_encoder },
        Law { prop: "C26", name: "multi", kind: Kind::Random(60_000, 1_500_000), rule: "multi-receivers over a user's protocols; non-trivial: a report", run: c26_multi },
        Law { prop: "C26", name: "remote", kind: Kind::Random(200_000, 4_000_000), rule: "a user's remote models: matching and other addresses and codes, tables with repetitions", run: c26_remote },
    ]
}
