//! The code under test, erased to "edges in, results out".

use std::cell::Cell;
use std::rc::Rc;

use embedded_hal::digital::v2::InputPin;
use infrared::protocol::denon::DenonCommand;
use infrared::protocol::nec::{AppleNecCommand, Nec16Command, NecCommand, NecDebugCmd, SamsungNecCommand};
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::sbp::SbpCommand;
use infrared::protocol::{AppleNec, Denon, Nec, Nec16, NecDebug, Rc5, Rc6, SamsungNec, Sbp};
use infrared::receiver::time::InfraMonotonic;
use infrared::receiver::{
    BufferInputReceiver, DecoderBuilder, DecodingError, Error, NoPin, PeriodicPoll, ProtocolDecoder, Receiver, State,
};
use infrared::sender::ProtocolEncoder;

use crate::spec::{Dec, Edge, P};

// ------------------------------------------------------------------------------------------- commands

fn dec(p: P, a: u32, c: u32, x: u64, rep: bool, flag: bool) -> Dec {
    Dec { p, a, c, x, rep, flag }
}
impl From<NecCommand> for Dec {
    fn from(c: NecCommand) -> Dec {
        dec(P::Nec, c.addr.into(), c.cmd.into(), 0, c.repeat, false)
    }
}
impl From<Nec16Command> for Dec {
    fn from(c: Nec16Command) -> Dec {
        dec(P::Nec16, c.addr.into(), c.cmd.into(), 0, c.repeat, false)
    }
}
impl From<SamsungNecCommand> for Dec {
    fn from(c: SamsungNecCommand) -> Dec {
        dec(P::Samsung, c.addr.into(), c.cmd.into(), 0, c.repeat, false)
    }
}
impl From<AppleNecCommand> for Dec {
    fn from(c: AppleNecCommand) -> Dec {
        dec(P::Apple, c.device_id.into(), c.command.into(), c.command_page.into(), c.repeat, false)
    }
}
impl From<NecDebugCmd> for Dec {
    fn from(c: NecDebugCmd) -> Dec {
        dec(P::Debug, 0, 0, c.bits.into(), false, false)
    }
}
impl From<Rc5Command> for Dec {
    fn from(c: Rc5Command) -> Dec {
        dec(P::Rc5, c.addr.into(), c.cmd.into(), c.start.into(), false, c.toggle)
    }
}
impl From<Rc6Command> for Dec {
    fn from(c: Rc6Command) -> Dec {
        dec(P::Rc6, c.addr.into(), c.cmd.into(), 0, false, c.toggle)
    }
}
impl From<SbpCommand> for Dec {
    fn from(c: SbpCommand) -> Dec {
        dec(P::Sbp, c.address.into(), c.command.into(), 0, false, c.valid)
    }
}
impl From<DenonCommand> for Dec {
    fn from(c: DenonCommand) -> Dec {
        dec(P::Denon, 0, 0, c.bits, false, false)
    }
}

pub fn nec(d: &Dec) -> NecCommand {
    NecCommand { addr: d.a as u8, cmd: d.c as u8, repeat: d.rep }
}
pub fn nec16(d: &Dec) -> Nec16Command {
    Nec16Command { addr: d.a as u16, cmd: d.c as u8, repeat: d.rep }
}
pub fn samsung(d: &Dec) -> SamsungNecCommand {
    SamsungNecCommand { addr: d.a as u8, cmd: d.c as u8, repeat: d.rep }
}
pub fn apple(d: &Dec) -> AppleNecCommand {
    AppleNecCommand { command_page: d.x as u8, command: d.c as u8, device_id: d.a as u8, repeat: d.rep }
}
pub fn debug(d: &Dec) -> NecDebugCmd {
    NecDebugCmd { bits: d.x as u32 }
}
pub fn rc5(d: &Dec) -> Rc5Command {
    Rc5Command { addr: d.a as u8, cmd: d.c as u8, start: d.x as u8, toggle: d.flag }
}
pub fn rc6(d: &Dec) -> Rc6Command {
    Rc6Command { addr: d.a as u8, cmd: d.c as u8, toggle: d.flag }
}

// --------------------------------------------------------------------------------------------- clocks

pub trait Ticks: InfraMonotonic {
    fn dur(t: u64) -> Self::Duration;
    fn inst(t: u64) -> Self::Instant;
    fn raw(d: Self::Duration) -> u64;
}
impl Ticks for u32 {
    fn dur(t: u64) -> u32 {
        t as u32
    }
    fn inst(t: u64) -> u32 {
        t as u32
    }
    fn raw(d: u32) -> u64 {
        d.into()
    }
}
impl Ticks for u64 {
    fn dur(t: u64) -> u64 {
        t
    }
    fn inst(t: u64) -> u64 {
        t
    }
    fn raw(d: u64) -> u64 {
        d
    }
}
impl<const NOM: u32, const HZ: u32> Ticks for fugit::Instant<u32, NOM, HZ> {
    fn dur(t: u64) -> Self::Duration {
        fugit::Duration::<u32, NOM, HZ>::from_ticks(t as u32)
    }
    fn inst(t: u64) -> Self::Instant {
        fugit::Instant::<u32, NOM, HZ>::from_ticks(t as u32)
    }
    fn raw(d: Self::Duration) -> u64 {
        d.ticks().into()
    }
}
impl<const NOM: u32, const HZ: u32> Ticks for fugit::Instant<u64, NOM, HZ> {
    fn dur(t: u64) -> Self::Duration {
        fugit::Duration::<u64, NOM, HZ>::from_ticks(t)
    }
    fn inst(t: u64) -> Self::Instant {
        fugit::Instant::<u64, NOM, HZ>::from_ticks(t)
    }
    fn raw(d: Self::Duration) -> u64 {
        d.ticks()
    }
}

/// Clock type
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mono {
    U32,
    U64,
    F32,
    F64,
}
pub const MONOS: [Mono; 4] = [Mono::U32, Mono::U64, Mono::F32, Mono::F64];
impl Mono {
    pub fn max(self) -> u64 {
        match self {
            Mono::U32 | Mono::F32 => u32::MAX as u64,
            _ => u64::MAX,
        }
    }
}

/// Rates at which fugit clocks are instantiated. 125 kHz, 1.125 MHz and 2 MHz are prescaled clocks
/// (more than one unit per tick).
pub const FUGIT_HZ: [u32; 17] = [
    40_000, 44_100, 64_000, 100_000, 250_000, 333_333, 1_000_000, 14_318_180, 16_000_000, 48_000_000, 64_000_000,
    125_000_000, 168_000_000, 1_000_000_000, 125_000, 1_125_000, 2_000_000,
];

/// A user's own clock: 64-bit times, everything else as the trait provides it.
pub struct OwnClock;
impl InfraMonotonic for OwnClock {
    type Instant = u64;
    type Duration = u64;
    const ZERO_INSTANT: u64 = 0;
    const ZERO_DURATION: u64 = 0;
    fn checked_sub(a: u64, b: u64) -> Option<u64> {
        a.checked_sub(b)
    }
    fn create_span(freq: u32, p: u32, t: u32) -> infrared::receiver::time::Span<u64> {
        <u64 as InfraMonotonic>::create_span(freq, p, t)
    }
}
impl Ticks for OwnClock {
    fn dur(t: u64) -> u64 {
        t
    }
    fn inst(t: u64) -> u64 {
        t
    }
    fn raw(d: u64) -> u64 {
        d
    }
}

// ---------------------------------------------------------------------------------------- front ends

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Front {
    Event,
    EventEdge,
    Instant,
    Pin,
    PinInstant,
    Decoder,
    DecoderManual,
    /// Constructor for fugit clocks (Receiver::with_input otherwise)
    Built,
}
pub const FRONTS: [Front; 8] = [
    Front::Event,
    Front::EventEdge,
    Front::Instant,
    Front::Pin,
    Front::PinInstant,
    Front::Decoder,
    Front::DecoderManual,
    Front::Built,
];

pub type Res = Result<Option<Dec>, DecodingError>;

/// Active-low input: the line is "on" when the pin is low. Failures are injected through `fail`.
#[derive(Clone)]
pub struct TestPin {
    pub on: Rc<Cell<bool>>,
    pub fail: Rc<Cell<Option<u32>>>,
}
impl TestPin {
    pub fn new() -> Self {
        TestPin { on: Rc::new(Cell::new(false)), fail: Rc::new(Cell::new(None)) }
    }
}
impl InputPin for TestPin {
    type Error = u32;
    fn is_high(&self) -> Result<bool, u32> {
        match self.fail.get() {
            Some(e) => Err(e),
            None => Ok(!self.on.get()),
        }
    }
    fn is_low(&self) -> Result<bool, u32> {
        self.is_high().map(|h| !h)
    }
}

/// Result through the pin interface, made comparable.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum PinRes {
    Res(Res),
    Hal(u32),
}
pub fn pinres(r: Result<Option<Dec>, Error<u32>>) -> PinRes {
    PinRes::Res(match r {
        Ok(c) => Ok(c),
        Err(Error::Hal(e)) => return PinRes::Hal(e),
        Err(Error::Address) => Err(DecodingError::Address),
        Err(Error::Data) => Err(DecodingError::Data),
        Err(Error::Validation) => Err(DecodingError::Validation),
        Err(Error::RemoteControlError) => Err(DecodingError::RemoteControlError),
    })
}

fn run_front<Pr, M>(front: Front, f: u32, edges: &[Edge]) -> Vec<Res>
where
    M: Ticks,
    Pr: DecoderBuilder<M>,
    Dec: From<Pr::Cmd>,
{
    let mut out = Vec::with_capacity(edges.len());
    match front {
        Front::Event => {
            let mut r: Receiver<Pr, NoPin, M, Dec> = Receiver::new(f);
            for e in edges {
                out.push(r.event(M::dur(e.dt), e.rising));
            }
        }
        Front::Built => {
            let mut r: Receiver<Pr, NoPin, M, Dec> = Receiver::with_input(f, NoPin);
            for e in edges {
                out.push(r.event(M::dur(e.dt), e.rising));
            }
        }
        Front::EventEdge => {
            let mut r: Receiver<Pr, u8, M, Dec> = Receiver::with_input(f, 3u8);
            for e in edges {
                out.push(r.event_edge(M::dur(e.dt), e.rising));
            }
        }
        Front::Instant => {
            let mut r: Receiver<Pr, NoPin, M, Dec> = Receiver::new(f);
            let mut t = 0u64;
            for e in edges {
                t = t.wrapping_add(e.dt);
                out.push(r.event_instant(M::inst(t), e.rising));
            }
        }
        Front::Pin => {
            let pin = TestPin::new();
            let on = pin.on.clone();
            let mut r: Receiver<Pr, TestPin, M, Dec> = Receiver::with_pin(f, pin);
            for e in edges {
                on.set(e.rising);
                match pinres(r.event(M::dur(e.dt))) {
                    PinRes::Res(x) => out.push(x),
                    PinRes::Hal(_) => out.push(Err(DecodingError::RemoteControlError)),
                }
            }
        }
        Front::PinInstant => {
            let pin = TestPin::new();
            let on = pin.on.clone();
            let mut r: Receiver<Pr, TestPin, M, Dec> = Receiver::with_pin(f, pin);
            let mut t = 0u64;
            for e in edges {
                t = t.wrapping_add(e.dt);
                on.set(e.rising);
                match pinres(r.event_instant(M::inst(t))) {
                    PinRes::Res(x) => out.push(x),
                    PinRes::Hal(_) => out.push(Err(DecodingError::RemoteControlError)),
                }
            }
        }
        Front::Decoder => {
            let mut d = Pr::build(f);
            for e in edges {
                out.push(d.event_total(e.rising, M::dur(e.dt)).map(|c| c.map(Into::into)));
            }
        }
        Front::DecoderManual => {
            let mut d = Pr::build(f);
            for e in edges {
                let r = match d.event(e.rising, M::dur(e.dt)) {
                    State::Idle | State::Receiving => Ok(None),
                    State::Done => {
                        let c = d.command().map(Into::into);
                        d.reset();
                        Ok(c)
                    }
                    State::Error(x) => {
                        d.reset();
                        Err(x)
                    }
                };
                out.push(r);
            }
        }
    }
    out
}

fn run_instants<Pr, M>(pin: bool, f: u32, t: &[(bool, u64)]) -> Vec<Res>
where
    M: Ticks,
    Pr: DecoderBuilder<M>,
    Dec: From<Pr::Cmd>,
{
    let mut out = Vec::with_capacity(t.len());
    if pin {
        let pin = TestPin::new();
        let on = pin.on.clone();
        let mut r: Receiver<Pr, TestPin, M, Dec> = Receiver::with_pin(f, pin);
        for e in t {
            on.set(e.0);
            match pinres(r.event_instant(M::inst(e.1))) {
                PinRes::Res(x) => out.push(x),
                PinRes::Hal(_) => out.push(Err(DecodingError::RemoteControlError)),
            }
        }
    } else {
        let mut r: Receiver<Pr, NoPin, M, Dec> = Receiver::new(f);
        for e in t {
            out.push(r.event_instant(M::inst(e.1), e.0));
        }
    }
    out
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Buf {
    /// BufferInputReceiver::with_frequenzy(f).iter
    Freq,
    /// BufferInputReceiver::new().iter_with(f)
    IterWith,
}

fn run_buffer<Pr, M>(how: Buf, f: u32, dts: &[u64]) -> Vec<Dec>
where
    M: Ticks,
    Pr: DecoderBuilder<M>,
    Dec: From<Pr::Cmd>,
{
    let v: Vec<M::Duration> = dts.iter().map(|d| M::dur(*d)).collect();
    // an iterator can yield at most one command per edge
    let cap = dts.len() + 2;
    match how {
        Buf::Freq => {
            let mut r: BufferInputReceiver<Pr, M, Dec> = BufferInputReceiver::with_frequenzy(f);
            let x = r.iter(&v).take(cap).collect();
            x
        }
        Buf::IterWith => {
            let mut r: BufferInputReceiver<Pr, M, Dec> = BufferInputReceiver::new();
            let x = r.iter_with::<Pr, M, Dec>(f, &v).take(cap).collect();
            x
        }
    }
}

/// Polled: edges must alternate, starting with a rising one; result i belongs to edge i.
/// Every poll between edges must report nothing, or `None` is returned.
pub fn run_polled<Pr>(pin: bool, f: u32, edges: &[Edge]) -> Option<Vec<Res>>
where
    Pr: DecoderBuilder<u32>,
    Dec: From<Pr::Cmd>,
{
    let mut out = Vec::with_capacity(edges.len());
    let mut level = false;
    let mut quiet = true;
    if pin {
        let pin = TestPin::new();
        let on = pin.on.clone();
        let mut r: PeriodicPoll<Pr, TestPin, Dec> = PeriodicPoll::with_pin(f, pin);
        for e in edges {
            on.set(level);
            for _ in 1..e.dt {
                quiet &= matches!(r.poll(), Ok(None));
            }
            level = e.rising;
            on.set(level);
            match pinres(r.poll()) {
                PinRes::Res(x) => out.push(x),
                PinRes::Hal(_) => return None,
            }
        }
    } else {
        let mut r: PeriodicPoll<Pr, NoPin, Dec> = PeriodicPoll::new(f);
        for e in edges {
            for _ in 1..e.dt {
                quiet &= r.poll(level) == Ok(None);
            }
            level = e.rising;
            out.push(r.poll(level));
        }
    }
    quiet.then_some(out)
}

// ---------------------------------------------------------------------------------- dispatch by value

#[macro_export]
macro_rules! by_proto {
    ($p:expr, $t:ident => $e:expr) => {
        match $p {
            $crate::spec::P::Nec => { type $t = infrared::protocol::Nec; $e }
            $crate::spec::P::Nec16 => { type $t = infrared::protocol::Nec16; $e }
            $crate::spec::P::Samsung => { type $t = infrared::protocol::SamsungNec; $e }
            $crate::spec::P::Apple => { type $t = infrared::protocol::AppleNec; $e }
            $crate::spec::P::Debug => { type $t = infrared::protocol::NecDebug; $e }
            $crate::spec::P::Rc5 => { type $t = infrared::protocol::Rc5; $e }
            $crate::spec::P::Rc6 => { type $t = infrared::protocol::Rc6; $e }
            $crate::spec::P::Sbp => { type $t = infrared::protocol::Sbp; $e }
            $crate::spec::P::Denon => { type $t = infrared::protocol::Denon; $e }
        }
    };
}

#[macro_export]
macro_rules! by_fugit {
    ($int:ident, $f:expr, $t:ident => $e:expr) => {
        match $f {
            40_000 => { type $t = fugit::Instant<$int, 1, 40_000>; $e }
            44_100 => { type $t = fugit::Instant<$int, 1, 44_100>; $e }
            64_000 => { type $t = fugit::Instant<$int, 1, 64_000>; $e }
            100_000 => { type $t = fugit::Instant<$int, 1, 100_000>; $e }
            250_000 => { type $t = fugit::Instant<$int, 1, 250_000>; $e }
            333_333 => { type $t = fugit::Instant<$int, 1, 333_333>; $e }
            1_000_000 => { type $t = fugit::Instant<$int, 1, 1_000_000>; $e }
            14_318_180 => { type $t = fugit::Instant<$int, 1, 14_318_180>; $e }
            16_000_000 => { type $t = fugit::Instant<$int, 1, 16_000_000>; $e }
            48_000_000 => { type $t = fugit::Instant<$int, 1, 48_000_000>; $e }
            64_000_000 => { type $t = fugit::Instant<$int, 1, 64_000_000>; $e }
            125_000_000 => { type $t = fugit::Instant<$int, 1, 125_000_000>; $e }
            168_000_000 => { type $t = fugit::Instant<$int, 1, 168_000_000>; $e }
            1_000_000_000 => { type $t = fugit::Instant<$int, 1, 1_000_000_000>; $e }
            125_000 => { type $t = fugit::Instant<$int, 8, 1_000_000>; $e }
            1_125_000 => { type $t = fugit::Instant<$int, 64, 72_000_000>; $e }
            2_000_000 => { type $t = fugit::Instant<$int, 1000, 2_000_000_000>; $e }
            other => panic!("harness: no fugit clock at {}", other),
        }
    };
}

#[macro_export]
macro_rules! by_mono {
    ($m:expr, $f:expr, $t:ident => $e:expr) => {
        match $m {
            $crate::dut::Mono::U32 => { type $t = u32; $e }
            $crate::dut::Mono::U64 => { type $t = u64; $e }
            $crate::dut::Mono::F32 => $crate::by_fugit!(u32, $f, $t => $e),
            $crate::dut::Mono::F64 => $crate::by_fugit!(u64, $f, $t => $e),
        }
    };
}

/// Feed edges to a receiver and collect the result of every call.
pub fn run(p: P, m: Mono, front: Front, f: u32, edges: &[Edge]) -> Vec<Res> {
    fn inner<Pr>(m: Mono, front: Front, f: u32, edges: &[Edge]) -> Vec<Res>
    where
        Pr: DecoderBuilder<u32> + DecoderBuilder<u64>,
        Dec: From<<Pr as infrared::Protocol>::Cmd>,
    {
        match m {
            Mono::U32 => run_front::<Pr, u32>(front, f, edges),
            _ => run_front::<Pr, u64>(front, f, edges),
        }
    }
    match m {
        Mono::U32 | Mono::U64 => by_proto!(p, T => inner::<T>(m, front, f, edges)),
        // at fugit rates one cheap front end per protocol, all of them at two of the rates
        _ if front == Front::Event => by_proto!(p, T => by_mono!(m, f, M => run_event_only::<T, M>(f, edges))),
        Mono::F32 => match f {
            1_000_000 => by_proto!(p, T => run_front::<T, fugit::Instant<u32, 1, 1_000_000>>(front, f, edges)),
            64_000 => by_proto!(p, T => run_front::<T, fugit::Instant<u32, 1, 64_000>>(front, f, edges)),
            _ => panic!("harness: front end not instantiated at {}", f),
        },
        Mono::F64 => match f {
            1_000_000 => by_proto!(p, T => run_front::<T, fugit::Instant<u64, 1, 1_000_000>>(front, f, edges)),
            64_000 => by_proto!(p, T => run_front::<T, fugit::Instant<u64, 1, 64_000>>(front, f, edges)),
            _ => panic!("harness: front end not instantiated at {}", f),
        },
    }
}

fn run_event_only<Pr, M>(f: u32, edges: &[Edge]) -> Vec<Res>
where
    M: Ticks,
    Pr: DecoderBuilder<M>,
    Dec: From<Pr::Cmd>,
{
    let mut r: Receiver<Pr, NoPin, M, Dec> = Receiver::new(f);
    edges.iter().map(|e| r.event(M::dur(e.dt), e.rising)).collect()
}

/// The same for a protocol of the harness's own, on integer clocks.
pub fn run_user<Pr>(m: Mono, front: Front, f: u32, edges: &[Edge]) -> Vec<Res>
where
    Pr: DecoderBuilder<u32> + DecoderBuilder<u64>,
    Dec: From<<Pr as infrared::Protocol>::Cmd>,
{
    match m {
        Mono::U32 => run_front::<Pr, u32>(front, f, edges),
        _ => run_front::<Pr, u64>(front, f, edges),
    }
}

/// Receivers on a user's own clock.
pub fn run_own(p: P, front: Front, f: u32, edges: &[Edge]) -> Vec<Res> {
    by_proto!(p, T => run_front::<T, OwnClock>(front, f, edges))
}

/// Feed (level, instant) pairs.
pub fn instants(p: P, m: Mono, pin: bool, f: u32, t: &[(bool, u64)]) -> Vec<Res> {
    match m {
        Mono::U32 => by_proto!(p, T => run_instants::<T, u32>(pin, f, t)),
        Mono::U64 => by_proto!(p, T => run_instants::<T, u64>(pin, f, t)),
        Mono::F32 => match f {
            1_000_000 => by_proto!(p, T => run_instants::<T, fugit::Instant<u32, 1, 1_000_000>>(pin, f, t)),
            _ => by_proto!(p, T => run_instants::<T, fugit::Instant<u32, 1, 64_000>>(pin, f, t)),
        },
        Mono::F64 => match f {
            1_000_000 => by_proto!(p, T => run_instants::<T, fugit::Instant<u64, 1, 1_000_000>>(pin, f, t)),
            _ => by_proto!(p, T => run_instants::<T, fugit::Instant<u64, 1, 64_000>>(pin, f, t)),
        },
    }
}

pub fn buffer(p: P, m: Mono, how: Buf, f: u32, dts: &[u64]) -> Vec<Dec> {
    match m {
        Mono::U32 => by_proto!(p, T => run_buffer::<T, u32>(how, f, dts)),
        Mono::U64 => by_proto!(p, T => run_buffer::<T, u64>(how, f, dts)),
        Mono::F32 => by_proto!(p, T => run_buffer::<T, fugit::Instant<u32, 1, 1_000_000>>(how, f, dts)),
        Mono::F64 => by_proto!(p, T => run_buffer::<T, fugit::Instant<u64, 1, 1_000_000>>(how, f, dts)),
    }
}

pub fn polled(p: P, pin: bool, f: u32, edges: &[Edge]) -> Option<Vec<Res>> {
    by_proto!(p, T => run_polled::<T>(pin, f, edges))
}

// --------------------------------------------------------------------------------------- bare decoder

pub trait DynDec {
    fn event(&mut self, rising: bool, dt: u64) -> State;
    fn command(&self) -> Option<Dec>;
    fn reset(&mut self);
    fn event_total(&mut self, rising: bool, dt: u64) -> Res;
    fn class(&self, dt: u64) -> Option<usize>;
}
struct DecBox<Pr: DecoderBuilder<M>, M: Ticks>(Pr::Decoder, std::marker::PhantomData<M>);
impl<Pr, M> DynDec for DecBox<Pr, M>
where
    M: Ticks,
    Pr: DecoderBuilder<M>,
    Dec: From<Pr::Cmd>,
{
    fn event(&mut self, rising: bool, dt: u64) -> State {
        self.0.event(rising, M::dur(dt))
    }
    fn command(&self) -> Option<Dec> {
        self.0.command().map(Into::into)
    }
    fn reset(&mut self) {
        self.0.reset()
    }
    fn event_total(&mut self, rising: bool, dt: u64) -> Res {
        self.0.event_total(rising, M::dur(dt)).map(|c| c.map(Into::into))
    }
    fn class(&self, dt: u64) -> Option<usize> {
        self.0.spans().get::<usize>(M::dur(dt))
    }
}
pub fn decoder(p: P, m: Mono, f: u32) -> Box<dyn DynDec> {
    by_proto!(p, T => by_mono!(m, f, M => Box::new(DecBox::<T, M>(<T as DecoderBuilder<M>>::build(f), std::marker::PhantomData)) as Box<dyn DynDec>))
}

// ------------------------------------------------------------------------------------------- encoders

/// Rates at which the encoders are instantiated (the last ones only with the `hirate` feature).
pub const ENC_HZ: [u32; 44] = [
    20_000, 22_050, 25_000, 31_250, 32_768, 36_000, 38_000, 40_000, 44_100, 48_000, 50_000, 56_000, 57_600, 64_000,
    76_000, 96_000, 100_000, 115_200, 125_000, 192_000, 250_000, 318_146, 320_000, 333_333, 500_000, 1_000_000,
    1_193_182, 2_000_000, 3_579_545, 4_000_000, 8_000_000, 12_345_678, 14_318_180, 16_000_000, 48_000_000,
    72_000_000, 84_000_000, 100_000_000, 168_000_000,
    318_999_999, 477_218_588, 477_218_589, 1_000_000_000, 4_294_967_295,
];
/// Those up to 400 kHz, where even sloppy arithmetic on a 9 ms pulse fits 32 bits.
pub const N_LOW_HZ: usize = 24;
pub fn enc_rates() -> &'static [u32] {
    if cfg!(feature = "hirate") {
        &ENC_HZ
    } else {
        &ENC_HZ[..N_LOW_HZ]
    }
}

fn enc_one<const F: u32>(d: &Dec, b: &mut [u32]) -> usize {
    match d.p {
        P::Nec => <Nec as ProtocolEncoder<F>>::encode(&nec(d), b),
        P::Nec16 => <Nec16 as ProtocolEncoder<F>>::encode(&nec16(d), b),
        P::Samsung => <SamsungNec as ProtocolEncoder<F>>::encode(&samsung(d), b),
        P::Apple => <AppleNec as ProtocolEncoder<F>>::encode(&apple(d), b),
        P::Debug => <NecDebug as ProtocolEncoder<F>>::encode(&debug(d), b),
        P::Rc5 => <Rc5 as ProtocolEncoder<F>>::encode(&rc5(d), b),
        P::Rc6 => <Rc6 as ProtocolEncoder<F>>::encode(&rc6(d), b),
        P::Sbp | P::Denon => panic!("harness: no encoder"),
    }
}

macro_rules! enc_table {
    ($f:expr, $d:expr, $b:expr; $($r:literal),* ; $($h:literal),*) => {
        match $f {
            $( $r => enc_one::<$r>($d, $b), )*
            $( #[cfg(feature = "hirate")] $h => enc_one::<$h>($d, $b), )*
            other => panic!("harness: no encoder at {}", other),
        }
    };
}

/// Encode at rate f into b, returning the number of entries.
pub fn encode(f: u32, d: &Dec, b: &mut [u32]) -> usize {
    enc_table!(f, d, b;
        20_000, 22_050, 25_000, 31_250, 32_768, 36_000, 38_000, 40_000, 44_100, 48_000, 50_000, 56_000, 57_600, 64_000,
        76_000, 96_000, 100_000, 115_200, 125_000, 192_000, 250_000, 318_146, 320_000, 333_333;
        500_000, 1_000_000, 1_193_182, 2_000_000, 3_579_545, 4_000_000, 8_000_000, 12_345_678, 14_318_180, 16_000_000, 48_000_000,
        72_000_000, 84_000_000, 100_000_000, 168_000_000,
        318_999_999, 477_218_588, 477_218_589, 1_000_000_000, 4_294_967_295)
}

pub fn encode_vec(f: u32, d: &Dec) -> Vec<u64> {
    // whatever is in the buffer
    let mut b = [0xA5A5_5A5Au32; 128];
    let n = encode(f, d, &mut b).min(b.len());
    b[..n].iter().map(|x| u64::from(*x)).collect()
}

#[allow(unused)]
pub type Unused = (Sbp, Denon);
