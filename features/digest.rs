//! Reads histories and commands, prints what this build of infrared makes of them, one line per
//! (input line, section). Built by the C21 check against many feature sets of the crate.
#![allow(unused_imports, dead_code, unused_mut, unused_variables)]

use std::fmt::Debug;
use std::io::Read;

use infrared::receiver::time::InfraMonotonic;
use infrared::receiver::{BufferInputReceiver, DecoderBuilder, NoPin, PeriodicPoll, ProtocolDecoder, Receiver};
use infrared::sender::ProtocolEncoder;
use infrared::Protocol;

#[cfg(feature = "log")]
mod logger {
    struct L;
    impl log::Log for L {
        fn enabled(&self, _: &log::Metadata) -> bool {
            true
        }
        fn log(&self, r: &log::Record) {
            // format everything: a logger must be able to
            std::hint::black_box(format!("{}", r.args()));
        }
        fn flush(&self) {}
    }
    static LOGGER: L = L;
    pub fn install() {
        log::set_logger(&LOGGER).unwrap();
        log::set_max_level(log::LevelFilter::Trace);
    }
}

#[cfg(feature = "defmt")]
mod logger {
    #[no_mangle]
    fn _defmt_acquire() {}
    #[no_mangle]
    fn _defmt_release() {}
    #[no_mangle]
    fn _defmt_flush() {}
    #[no_mangle]
    fn _defmt_write(b: &[u8]) {
        std::hint::black_box(b);
    }
    #[no_mangle]
    fn _defmt_panic() -> ! {
        panic!("defmt")
    }
    #[no_mangle]
    fn _defmt_timestamp(_: defmt::Formatter<'_>) {}
    pub fn install() {}
}

#[cfg(not(any(feature = "log", feature = "defmt")))]
mod logger {
    pub fn install() {}
}

fn fnv(h: &mut u64, s: &str) {
    for b in s.as_bytes() {
        *h = (*h ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3);
    }
}

struct Hist {
    f: u32,
    edges: Vec<(bool, u32)>,
}

fn results<I: Iterator<Item = String>>(n: usize, sec: &str, it: I) {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut first = String::new();
    for (i, r) in it.enumerate() {
        fnv(&mut h, &r);
        fnv(&mut h, ";");
        if first.is_empty() && !r.contains("None") {
            first = format!("edge {} {}", i, r);
        }
    }
    println!("{}\t{}\t{:016x}\t{}", n, sec, h, first);
}

fn decode<P>(n: usize, sec: &str, h: &Hist)
where
    P: DecoderBuilder<u32>,
    P::Cmd: Debug,
{
    let mut r: Receiver<P, NoPin, u32> = Receiver::new(h.f);
    results(n, sec, h.edges.iter().map(|(e, d)| format!("{:?}", r.event(*d, *e))));
    let mut r: Receiver<P, NoPin, u32> = Receiver::new(h.f);
    let mut t = 0u32;
    results(
        n,
        &format!("{}-instant", sec),
        h.edges.iter().map(|(e, d)| {
            t = t.saturating_add(*d);
            format!("{:?}", r.event_instant(t, *e))
        }),
    );
    if h.f <= 100_000 {
        let mut r: PeriodicPoll<P, NoPin> = PeriodicPoll::new(h.f);
        let mut level = false;
        results(
            n,
            &format!("{}-polled", sec),
            h.edges.iter().flat_map(|(e, d)| {
                let mut o = vec![];
                for _ in 0..(*d).min(2000) {
                    if let Ok(Some(c)) = r.poll(level) {
                        o.push(format!("{:?}", c));
                    }
                }
                level = *e;
                o
            }),
        );
    }
    let dts: Vec<u32> = h.edges.iter().map(|x| x.1).collect();
    let mut r: BufferInputReceiver<P> = BufferInputReceiver::with_frequenzy(h.f);
    results(n, &format!("{}-buffer", sec), r.iter(&dts).map(|c| format!("{:?}", c)));
    #[cfg(feature = "embedded-hal")]
    {
        struct Pin(std::rc::Rc<std::cell::Cell<bool>>);
        impl embedded_hal::digital::v2::InputPin for Pin {
            type Error = ();
            fn is_high(&self) -> Result<bool, ()> {
                Ok(!self.0.get())
            }
            fn is_low(&self) -> Result<bool, ()> {
                Ok(self.0.get())
            }
        }
        let on = std::rc::Rc::new(std::cell::Cell::new(false));
        let mut r: Receiver<P, Pin, u32> = Receiver::with_pin(h.f, Pin(on.clone()));
        results(
            n,
            &format!("{}-pin", sec),
            h.edges.iter().map(|(e, d)| {
                on.set(*e);
                format!("{:?}", r.event(*d))
            }),
        );
    }
}

#[cfg(feature = "fugit")]
fn decode_fugit<P>(n: usize, sec: &str, h: &Hist)
where
    P: DecoderBuilder<fugit::Instant<u32, 1, 1_000_000>>,
    P::Cmd: Debug,
{
    if h.f != 1_000_000 {
        return;
    }
    let mut r: Receiver<P, NoPin, fugit::Instant<u32, 1, 1_000_000>> = Receiver::new(h.f);
    results(
        n,
        &format!("{}-fugit", sec),
        h.edges.iter().map(|(e, d)| format!("{:?}", r.event(fugit::Duration::<u32, 1, 1_000_000>::from_ticks(*d), *e))),
    );
}

fn encode<P: ProtocolEncoder<40_000>>(n: usize, sec: &str, c: &P::Cmd) {
    let mut b = [0u32; 128];
    let k = P::encode(c, &mut b);
    results(n, sec, b[..k].iter().map(|x| x.to_string()));
}

#[cfg(feature = "remotes")]
fn remote<R: infrared::remotecontrol::RemoteControlModel>(n: usize, sec: &str, c: &R::Cmd) {
    use infrared::remotecontrol::RemoteControlModel;
    let act = R::decode(c);
    let s = format!("{:?} {} {:?} {:x}", act, R::MODEL, R::PROTOCOL, R::ADDRESS);
    let back = act.and_then(|a| R::encode(&a)).is_some();
    results(n, sec, [s, format!("{}", back)].into_iter());
}

fn main() {
    logger::install();
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    for (n, line) in text.lines().enumerate() {
        let mut w = line.split_whitespace();
        match w.next() {
            Some("h") => {
                let f = w.next().unwrap().parse().unwrap();
                let edges = w.map(|x| (x.starts_with('r'), x[1..].parse().unwrap())).collect();
                let h = Hist { f, edges };
                #[cfg(feature = "nec")]
                {
                    use infrared::protocol::*;
                    decode::<Nec>(n, "nec", &h);
                    decode::<Nec16>(n, "nec16", &h);
                    decode::<SamsungNec>(n, "samsung", &h);
                    decode::<AppleNec>(n, "apple", &h);
                    decode::<NecDebug>(n, "necdebug", &h);
                    #[cfg(feature = "fugit")]
                    decode_fugit::<Nec>(n, "nec", &h);
                    #[cfg(feature = "fugit")]
                    decode_fugit::<SamsungNec>(n, "samsung", &h);
                }
                #[cfg(feature = "rc5")]
                {
                    decode::<infrared::protocol::Rc5>(n, "rc5", &h);
                    #[cfg(feature = "fugit")]
                    decode_fugit::<infrared::protocol::Rc5>(n, "rc5", &h);
                }
                #[cfg(feature = "rc6")]
                {
                    decode::<infrared::protocol::Rc6>(n, "rc6", &h);
                    #[cfg(feature = "fugit")]
                    decode_fugit::<infrared::protocol::Rc6>(n, "rc6", &h);
                }
                #[cfg(feature = "sbp")]
                {
                    decode::<infrared::protocol::Sbp>(n, "sbp", &h);
                    #[cfg(feature = "fugit")]
                    decode_fugit::<infrared::protocol::Sbp>(n, "sbp", &h);
                }
                #[cfg(feature = "denon")]
                {
                    decode::<infrared::protocol::Denon>(n, "denon", &h);
                    #[cfg(feature = "fugit")]
                    decode_fugit::<infrared::protocol::Denon>(n, "denon", &h);
                }
            }
            Some("c") => {
                let v: Vec<u64> = w.map(|x| x.parse().unwrap()).collect();
                let (a, c, x, t) = (v[0], v[1], v[2], v[3] == 1);
                #[cfg(feature = "nec")]
                {
                    use infrared::protocol::nec::*;
                    use infrared::protocol::*;
                    let nec = NecCommand { addr: a as u8, cmd: c as u8, repeat: false };
                    let sam = SamsungNecCommand { addr: a as u8, cmd: c as u8, repeat: false };
                    encode::<Nec>(n, "enc-nec", &nec);
                    encode::<Nec16>(n, "enc-nec16", &Nec16Command { addr: a as u16, cmd: c as u8, repeat: false });
                    encode::<SamsungNec>(n, "enc-samsung", &sam);
                    let ap = AppleNecCommand { command_page: x as u8 & 31, command: c as u8 & 127, device_id: a as u8, repeat: false };
                    encode::<AppleNec>(n, "enc-apple", &ap);
                    encode::<NecDebug>(n, "enc-necdebug", &NecDebugCmd { bits: x as u32 });
                    #[cfg(feature = "remotes")]
                    {
                        use infrared::remotecontrol::nec::*;
                        remote::<SamsungTv>(n, "rem-samsung", &sam);
                        remote::<SpecialForMp3>(n, "rem-mp3", &nec);
                        remote::<Apple2009>(n, "rem-apple", &ap);
                    }
                }
                #[cfg(feature = "rc5")]
                {
                    let cmd = infrared::protocol::rc5::Rc5Command { addr: a as u8 & 31, cmd: c as u8 & 63, start: 3, toggle: t };
                    encode::<infrared::protocol::Rc5>(n, "enc-rc5", &cmd);
                    #[cfg(feature = "remotes")]
                    remote::<infrared::remotecontrol::rc5::CdPlayer>(n, "rem-cd", &cmd);
                }
                #[cfg(feature = "rc6")]
                {
                    let cmd = infrared::protocol::rc6::Rc6Command { addr: a as u8, cmd: c as u8, toggle: t };
                    encode::<infrared::protocol::Rc6>(n, "enc-rc6", &cmd);
                }
                #[cfg(all(feature = "sbp", feature = "remotes"))]
                {
                    let cmd = infrared::protocol::sbp::SbpCommand::unpack(a as u16, (c as u32 & 0xff) << 4 | (!c as u32 & 0xff) << 12);
                    remote::<infrared::remotecontrol::sbp::SamsungBluRayPlayer>(n, "rem-bluray", &cmd);
                }
            }
            _ => {}
        }
    }
}
