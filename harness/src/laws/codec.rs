//! C01 round trip, C02 waveforms, C15 bit layouts, C16 generic views.

use infrared::cmd::{AddressCommand, AnyCommand, Command};
use infrared::protocol::denon::DenonCommand;
use infrared::protocol::nec::{AppleNecCommand, Nec16Command, NecCommand, NecCommandVariant, NecDebugCmd, SamsungNecCommand};
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::sbp::SbpCommand;
use infrared::protocol::{AppleNec, Denon, Nec, Rc5, Rc6, SamsungNec, Sbp};
use infrared::receiver::{DecoderBuilder, NoPin, Receiver};
use infrared::ProtocolId;

use crate::dut::{self, Buf, Front, Mono};
use crate::engine::{Ctx, Kind, Law, Outcome, Src};
use crate::ensure;
use crate::hist;
use crate::laws::cmds;
use crate::spec::*;

/// A command the encoder of `p` can represent.
pub fn any_cmd(s: &mut Src, p: P) -> Dec {
    let bits = wellformed_bits(p, s);
    expected(p, bits, false).expect("harness: well-formed")
}

/// The wire bits of a command, by the published layout.
pub fn wire_bits(d: &Dec) -> u64 {
    let (a, c) = (d.a as u64, d.c as u64);
    match d.p {
        P::Nec => a | (!a & 0xff) << 8 | c << 16 | (!c & 0xff) << 24,
        P::Nec16 => a | c << 16 | (!c & 0xff) << 24,
        P::Samsung => a | a << 8 | c << 16 | (!c & 0xff) << 24,
        P::Apple => apple_bits(d.x, c, a),
        P::Debug => d.x,
        P::Rc5 => c | a << 6 | (d.flag as u64) << 11 | d.x << 12,
        P::Rc6 => c | a << 8 | (d.flag as u64) << 16,
        _ => unreachable!(),
    }
}

fn enc_rate(s: &mut Src, p: P) -> u32 {
    let f = *s.pick(dut::enc_rates());
    // RC6 needs 40 kHz
    if p == P::Rc6 {
        f.max(40_000)
    } else {
        f
    }
}

pub const N8: u64 = 65536;
pub const EXH: u64 = 2 * N8 + 8192 + 131072;

/// Enumerates every command of NEC, Samsung, RC5 and RC6.
pub fn exhaustive_cmd(i: u64) -> Dec {
    let (p, bits) = if i < N8 {
        let (a, c) = (i & 0xff, i >> 8);
        (P::Nec, a | (!a & 0xff) << 8 | c << 16 | (!c & 0xff) << 24)
    } else if i < 2 * N8 {
        let j = i - N8;
        let (a, c) = (j & 0xff, j >> 8);
        (P::Samsung, a | a << 8 | c << 16 | (!c & 0xff) << 24)
    } else if i < 2 * N8 + 8192 {
        (P::Rc5, (i - 2 * N8) | 1 << 13)
    } else {
        (P::Rc6, i - 2 * N8 - 8192)
    };
    expected(p, bits, false).expect("harness: command")
}

fn roundtrip(d: &Dec, f: u32, how: u64, ctx: &mut Ctx) -> Outcome {
    let v = dut::encode_vec(f, d);
    ctx.nontrivial = true;
    ctx.sample(|| format!("{:?} at {} Hz -> {:?}", d, f, v));
    let got: Vec<Dec> = match how {
        0 => dut::buffer(d.p, Mono::U32, Buf::Freq, f, &v),
        1 => dut::buffer(d.p, Mono::U64, Buf::IterWith, f, &v),
        _ => {
            let edges: Vec<Edge> =
                v.iter().enumerate().map(|(i, dt)| Edge { rising: i % 2 == 0, dt: *dt }).collect();
            cmds(&dut::run(d.p, Mono::U32, Front::Event, f, &edges)).into_iter().map(|x| x.1).collect()
        }
    };
    ensure!(got == [*d], "encoding {:?} at {} Hz gives {:?}, which is received as {:?}", d, f, v, got);
    Ok(())
}

fn c01_every(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let d = exhaustive_cmd(s.below(EXH));
    let f = enc_rate(s, d.p);
    let how = s.below(3);
    roundtrip(&d, f, how, ctx)
}

/// Every 16-bit NEC and every Apple command, by rows of 256 and 128.
fn row(i: u64) -> Vec<Dec> {
    if i < 65536 {
        (0..256).map(|c| Dec { p: P::Nec16, a: i as u32, c, x: 0, rep: false, flag: false }).collect()
    } else {
        let i = i - 65536;
        (0..128).map(|c| Dec { p: P::Apple, a: (i & 0xff) as u32, c, x: i >> 8, rep: false, flag: false }).collect()
    }
}
const ROWS: u64 = 65536 + 32 * 256;

fn c01_rows(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let ds = row(s.below(ROWS));
    let f = enc_rate(s, P::Nec16);
    let how = s.below(3);
    ctx.inner += ds.len() as u64;
    ds.iter().try_for_each(|d| roundtrip(d, f, how, ctx))
}

fn c02_rows(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let ds = row(s.below(ROWS));
    let f = enc_rate(s, P::Nec16);
    ctx.inner += ds.len() as u64;
    ds.iter().try_for_each(|d| waveform(d, f, 7, 68, ctx))
}

fn c01_rates(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ENCODABLE);
    let d = any_cmd(s, p);
    let f = enc_rate(s, p);
    let how = s.below(3);
    ctx.label(label(p));
    roundtrip(&d, f, how, ctx)
}

pub fn label(p: P) -> &'static str {
    match p {
        P::Nec => "Nec",
        P::Nec16 => "Nec16",
        P::Samsung => "Samsung",
        P::Apple => "Apple",
        P::Debug => "NecDebug",
        P::Rc5 => "Rc5",
        P::Rc6 => "Rc6",
        P::Sbp => "Sbp",
        P::Denon => "Denon",
    }
}

fn c01_sequence(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ENCODABLE);
    let n = s.range(1, 6);
    let fug = s.chance(1, 4);
    let (m, f) = if fug {
        (*s.pick(&[Mono::F32, Mono::F64]), if cfg!(feature = "hirate") { 1_000_000 } else { 64_000 })
    } else {
        (*s.pick(&[Mono::U32, Mono::U64]), enc_rate(s, p))
    };
    let mut want = vec![];
    let mut v: Vec<u64> = vec![];
    let cfg = hist::Cfg::alternating(u32::MAX as u64);
    for i in 0..n {
        let d = if i > 0 && s.chance(1, 3) { *want.last().unwrap() } else { any_cmd(s, p) };
        let mut e = dut::encode_vec(f, &d);
        if i > 0 {
            e[0] = hist::idle(s, f, &cfg);
        }
        ensure!(e.len() % 2 == 0, "{:?} at {} Hz does not end with the line off: {:?}", d, f, e);
        v.extend(e);
        want.push(d);
    }
    ctx.nontrivial = n > 1;
    ctx.label(label(p));
    ctx.sample(|| format!("{:?} {:?} at {} Hz", m, want, f));
    let got = if s.bool() {
        dut::buffer(p, m, Buf::Freq, f, &v)
    } else {
        let edges: Vec<Edge> = v.iter().enumerate().map(|(i, dt)| Edge { rising: i % 2 == 0, dt: *dt }).collect();
        cmds(&dut::run(p, m, Front::Event, f, &edges)).into_iter().map(|x| x.1).collect()
    };
    ensure!(got == want, "sent {:?} at {} Hz, received {:?} (pulses {:?})", want, f, got, v);
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C02

/// (nominal microseconds, basic units) of every entry after the leading zero.
pub fn nominal_wave(d: &Dec) -> Vec<(u32, u32)> {
    let fam = d.p.fam();
    let bits = wire_bits(d);
    if biphase(fam) {
        let t = class_len(fam, 0);
        units(fam, bits).0.into_iter().map(|k| (k * t, k)).collect()
    } else {
        let mut v: Vec<(u32, u32)> = vec![];
        for k in periods(fam, bits) {
            let c = classes(fam)[k];
            v.extend([(c.0, 1), (c.1, 1)]);
        }
        v.push((closing_mark(fam), 1));
        v
    }
}

fn waveform(d: &Dec, f: u32, fill: u32, size: usize, ctx: &mut Ctx) -> Outcome {
    let mut b = vec![fill; size];
    let n = dut::encode(f, d, &mut b);
    ctx.nontrivial = true;
    ctx.sample(|| format!("{:?} at {} Hz -> {:?}", d, f, &b[..n.min(size)]));
    let want = nominal_wave(d);
    ensure!(
        n == want.len() + 1 && n <= size,
        "{:?} at {} Hz: {} entries instead of {} ({:?})",
        d,
        f,
        n,
        want.len() + 1,
        &b[..n.min(size)]
    );
    ensure!(b[0] == 0, "{:?} at {} Hz: first entry is {}", d, f, b[0]);
    for (i, (us, k)) in want.iter().enumerate() {
        let nom = *us as f64 * f as f64 / 1e6;
        let got = b[i + 1] as f64;
        ensure!(
            (got - nom).abs() <= *k as f64 + 1e-6,
            "{:?} at {} Hz: entry {} is {} ticks, nominal is {} us = {:.2} ticks ({:?})",
            d,
            f,
            i + 1,
            got,
            us,
            nom,
            &b[..n]
        );
    }
    Ok(())
}

/// Any value of the command struct whose fields are in range; the repeat flag does not matter.
fn cmd_for_wave(s: &mut Src, p: P) -> Dec {
    let mut d = any_cmd(s, p);
    if matches!(p, P::Nec | P::Nec16 | P::Samsung | P::Apple) {
        d.rep = s.bool();
    }
    d
}

fn c02_every(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let d = exhaustive_cmd(s.below(EXH));
    let f = *s.pick(dut::enc_rates());
    waveform(&d, f, 0, 128, ctx)
}

fn c02_any(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&ENCODABLE);
    let d = cmd_for_wave(s, p);
    let f = *s.pick(dut::enc_rates());
    ctx.label(label(p));
    let fill = *s.pick(&[0, u32::MAX, 7, 0xDEAD_BEEF]);
    let size = 128 + s.below(3) as usize * 100;
    waveform(&d, f, fill, size, ctx)
}

// ------------------------------------------------------------------------------------------------ C15

fn pat32(s: &mut Src) -> u64 {
    match s.below(6) {
        0 => wellformed_bits(P::Nec, s),
        1 => wellformed_bits(P::Samsung, s),
        2 => wellformed_bits(P::Nec16, s),
        3 => wellformed_bits(P::Apple, s),
        4 => {
            // well-formed with up to two bits flipped
            let p = *s.pick(&NECS);
            let mut b = wellformed_bits(p, s);
            for _ in 0..s.range(1, 2) {
                b ^= 1 << s.below(32);
            }
            b
        }
        _ => s.bits(32),
    }
}

fn inv(a: u64, b: u64) -> bool {
    (a ^ b) & 0xff == 0xff
}

pub fn valid(p: P, b: u64) -> bool {
    match p {
        P::Nec => inv(b, b >> 8) && inv(b >> 16, b >> 24),
        P::Nec16 => inv(b >> 16, b >> 24),
        P::Samsung => (b ^ (b >> 8)) & 0xff == 0 && inv(b >> 16, b >> 24),
        P::Apple => (b >> 5) & 0x7ff == APPLE_VENDOR && b.count_ones() % 2 == 1,
        _ => true,
    }
}

fn nec_layout<C: NecCommandVariant>(p: P, b: u32, rep: bool, f: fn(C) -> Dec) -> Outcome {
    let want_valid = valid(p, b.into());
    ensure!(C::validate(b) == want_valid, "{:?}: validate({:#010x}) is {}", p, b, !want_valid);
    let u = C::unpack(b, rep);
    let packed = u.as_ref().map(|c| c.pack());
    let d = u.map(f);
    let want = expected(p, b.into(), rep);
    ensure!(
        d == want || (!want_valid && d.is_none()),
        "{:?}: unpack({:#010x}, {}) is {:?}, expected {:?}",
        p,
        b,
        rep,
        d,
        want
    );
    if want_valid {
        ensure!(packed == Some(b), "{:?}: unpack then pack of {:#010x} is {:x?}", p, b, packed);
    }
    if let Some(k) = packed {
        ensure!(C::validate(k), "{:?}: packing {:?} gives {:#010x}, which is not valid", p, d, k);
    }
    Ok(())
}

fn nec_layout_any(p: P, b: u32, rep: bool) -> Outcome {
    match p {
        P::Nec => nec_layout::<NecCommand>(p, b, rep, Into::into),
        P::Nec16 => nec_layout::<Nec16Command>(p, b, rep, Into::into),
        P::Samsung => nec_layout::<SamsungNecCommand>(p, b, rep, Into::into),
        P::Apple => nec_layout::<AppleNecCommand>(p, b, rep, Into::into),
        _ => nec_layout::<NecDebugCmd>(p, b, rep, Into::into),
    }
}

fn c15_nec(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let b = pat32(s);
    let rep = s.bool();
    for p in NECS {
        if valid(p, b) {
            ctx.label(label(p));
            if p != P::Debug {
                ctx.nontrivial = true;
            }
        }
    }
    ctx.sample(|| format!("pattern {:#010x}, repeat {}", b, rep));
    for p in NECS {
        nec_layout_any(p, b as u32, rep)?;
    }
    Ok(())
}

/// All 2^16 values of the lower or upper half, the other half random: every check byte combination.
fn c15_halves(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let i = s.below(131072);
    let half = i & 0xffff;
    let other = match s.below(3) {
        0 => wellformed_bits(P::Nec, s) & 0xffff,
        1 => wellformed_bits(P::Samsung, s) & 0xffff,
        _ => wellformed_bits(P::Apple, s) & 0xffff,
    };
    let other_hi = {
        let c = s.bits(8);
        c | (!c & 0xff) << 8
    };
    let b = if i >> 16 == 0 { half | other_hi << 16 } else { other | half << 16 };
    ctx.nontrivial = NECS[..4].iter().any(|p| valid(*p, b));
    ctx.sample(|| format!("pattern {:#010x}", b));
    for p in NECS {
        nec_layout_any(p, b as u32, false)?;
    }
    Ok(())
}

/// pack of every representable command
fn c15_pack(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let d = if s.bool() {
        exhaustive_cmd(s.below(2 * N8 + 8192))
    } else {
        let p = *s.pick(&[P::Nec16, P::Apple, P::Debug]);
        cmd_for_wave(s, p)
    };
    ctx.nontrivial = true;
    ctx.label(label(d.p));
    let want = wire_bits(&d);
    let got: u64 = match d.p {
        P::Nec => dut::nec(&d).pack().into(),
        P::Nec16 => dut::nec16(&d).pack().into(),
        P::Samsung => dut::samsung(&d).pack().into(),
        P::Apple => dut::apple(&d).pack().into(),
        P::Debug => dut::debug(&d).pack().into(),
        _ => dut::rc5(&d).pack().into(),
    };
    ctx.sample(|| format!("{:?} -> {:#x}", d, got));
    ensure!(got == want, "pack of {:?} is {:#x}, published layout {:#x}", d, got, want);
    Ok(())
}

/// Every 16-bit NEC and Apple command: pack, validate, unpack.
fn c15_rows(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let ds = row(s.below(ROWS));
    ctx.inner += ds.len() as u64;
    ctx.nontrivial = true;
    ctx.sample(|| format!("from {:?}", ds[0]));
    for d in &ds {
        let want = wire_bits(d) as u32;
        let (bits, valid, back): (u32, bool, Option<Dec>) = if d.p == P::Nec16 {
            (dut::nec16(d).pack(), Nec16Command::validate(want), Nec16Command::unpack(want, false).map(Into::into))
        } else {
            (dut::apple(d).pack(), AppleNecCommand::validate(want), AppleNecCommand::unpack(want, false).map(Into::into))
        };
        ensure!(bits == want, "pack of {:?} is {:#x}, published layout {:#x}", d, bits, want);
        ensure!(valid, "{:#x}, which is {:?}, does not validate", want, d);
        ensure!(back == Some(*d), "unpack of {:#x} gives {:?}, expected {:?}", want, back, d);
    }
    Ok(())
}

/// All 2^32 patterns, 65536 per case.
fn c15_all(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let hi = (s.below(65536) as u32) << 16;
    let rep = s.bool();
    ctx.inner += 65536;
    ctx.nontrivial = true;
    ctx.sample(|| format!("patterns from {:#010x}, repeat {}", hi, rep));
    for lo in 0..65536 {
        for p in NECS {
            nec_layout_any(p, hi | lo, rep)?;
        }
    }
    Ok(())
}

/// RC5, RC6 and Blu-ray conversions over all 2^16 patterns.
fn c15_small(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let b = s.below(65536) as u16;
    ctx.nontrivial = true;
    ctx.sample(|| format!("pattern {:#06x}", b));
    // RC5
    let d: Dec = Rc5Command::unpack(b).into();
    let want = expected(P::Rc5, b as u64 & 0x3fff, false).unwrap();
    ensure!(d == want, "Rc5Command::unpack({:#06x}) is {:?}, expected {:?}", b, d, want);
    let r = Rc5Command::unpack(b).pack();
    ensure!(r == b & 0x3fff, "Rc5: unpack then pack of {:#06x} is {:#06x}", b, r);
    let k = Rc5Command::new((b & 0x1f) as u8, (b >> 5 & 0x3f) as u8, b >> 11 & 1 == 1);
    ensure!(
        (k.addr as u16, k.cmd as u16, k.start, k.toggle) == (b & 0x1f, b >> 5 & 0x3f, 3, b >> 11 & 1 == 1),
        "Rc5Command::new gives {:?} for {:#06x}",
        k,
        b
    );
    // RC6
    for t in [false, true] {
        let d: Dec = Rc6Command::from_bits(b, t).into();
        let want = expected(P::Rc6, b as u64 | (t as u64) << 16, false).unwrap();
        ensure!(d == want, "Rc6Command::from_bits({:#06x}, {}) is {:?}", b, t, d);
    }
    let k: Dec = Rc6Command::new((b >> 8) as u8, b as u8).into();
    ensure!(k == expected(P::Rc6, b as u64, false).unwrap(), "Rc6Command::new gives {:?} for {:#06x}", k, b);
    // Blu-ray: every pair of command bytes, random address and unknown bits
    let addr = s.bits(16) as u16;
    let unk = s.bits(4) as u32;
    let c = SbpCommand::unpack(addr, unk | (b as u32) << 4);
    let want = expected(P::Sbp, addr as u64 | (unk as u64) << 16 | (b as u64) << 20, false).unwrap();
    let got: Dec = c.into();
    ensure!(got == want, "SbpCommand::unpack({:#06x}, {:#07x}) is {:?}, expected {:?}", addr, unk | (b as u32) << 4, got, want);
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C16

fn num(s: &mut Src) -> u32 {
    match s.below(5) {
        0 => s.below(300) as u32,
        1 => *s.pick(&[0, 31, 32, 63, 64, 127, 128, 255, 256, 511, 65535, 65536, 65537, 1 << 24, u32::MAX, u32::MAX - 1, 0x1_0000 + 7]),
        2 => (s.below(256) | 1 << s.range(8, 31)) as u32,
        3 => s.below(70000) as u32,
        _ => s.bits(32) as u32,
    }
}

fn create<C: AddressCommand + Command>(
    name: &str,
    id: ProtocolId,
    a: u32,
    c: u32,
    fits: bool,
    sendable: impl Fn(&C) -> Result<(), String>,
) -> Result<bool, String> {
    ensure!(C::ID == id, "{}: id {:?}", name, C::ID);
    let r = C::create(a, c);
    ensure!(r.is_some() == fits, "{}: create({}, {}) gives {}", name, a, c, if fits { "nothing" } else { "a command, though the numbers do not fit" });
    if let Some(k) = r {
        ensure!(
            k.address() == a && k.command() == c && !k.is_repeat(),
            "{}: create({}, {}) reports address {}, command {}, repeat {}",
            name,
            a,
            c,
            k.address(),
            k.command(),
            k.is_repeat()
        );
        sendable(&k)?;
        return Ok(true);
    }
    Ok(false)
}

fn c16_create(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let (a, c) = (num(s), num(s));
    create_all(a, c, ctx)
}

fn c16_small(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let i = s.below(300 * 300) as u32;
    create_all(i % 300, i / 300, ctx)
}

fn create_all(a: u32, c: u32, ctx: &mut Ctx) -> Outcome {
    ctx.sample(|| format!("create({}, {})", a, c));
    let rt = |p: P, bits: u64, got: Dec| -> Result<(), String> {
        let want = expected(p, bits, false).unwrap();
        ensure!(got == want, "create({}, {}) for {:?} gives {:?}", a, c, p, got);
        // it can be sent
        let v = dut::encode_vec(40_000, &got);
        let back = dut::buffer(p, Mono::U32, Buf::Freq, 40_000, &v);
        ensure!(back == [got], "created command {:?} is received as {:?}", got, back);
        Ok(())
    };
    let (a64, c64) = (a as u64, c as u64);
    let mut any = false;
    any |= create::<NecCommand>("NecCommand", ProtocolId::Nec, a, c, a < 256 && c < 256, |k| {
        rt(P::Nec, a64 | (!a64 & 0xff) << 8 | c64 << 16 | (!c64 & 0xff) << 24, (*k).into())
    })?;
    any |= create::<SamsungNecCommand>("SamsungNecCommand", ProtocolId::NecSamsung, a, c, a < 256 && c < 256, |k| {
        rt(P::Samsung, a64 | a64 << 8 | c64 << 16 | (!c64 & 0xff) << 24, (*k).into())
    })?;
    any |= create::<Rc5Command>("Rc5Command", ProtocolId::Rc5, a, c, a < 32 && c < 64, |k| {
        rt(P::Rc5, c64 | a64 << 6 | 3 << 12, (*k).into())
    })?;
    any |= create::<Rc6Command>("Rc6Command", ProtocolId::Rc6, a, c, a < 256 && c < 256, |k| {
        rt(P::Rc6, c64 | a64 << 8, Rc6Command { addr: k.addr, cmd: k.cmd, toggle: k.toggle }.into())
    })?;
    any |= create::<SbpCommand>("SbpCommand", ProtocolId::Sbp, a, c, a < 65536 && c < 256, |k| {
        ensure!(k.valid, "SbpCommand::create({}, {}) is not valid", a, c);
        ensure!(k.address as u32 == a && k.command as u32 == c, "SbpCommand::create({}, {}) is {:?}", a, c, k);
        Ok(())
    })?;
    create::<AppleNecCommand>("AppleNecCommand", ProtocolId::NecApple, a, c, false, |_| Ok(()))?;
    ctx.nontrivial = any;
    if any {
        ctx.label("some protocol fits");
    } else {
        ctx.label("fits none");
    }
    Ok(())
}

type View = (ProtocolId, u64, u32, u32, bool);
pub fn view(a: AnyCommand) -> View {
    (a.protocol, a.raw, a.address, a.command, a.repeat)
}

/// What the protocol-independent form of a command must be.
pub fn any_view(d: &Dec) -> View {
    match d.p {
        P::Nec => (ProtocolId::Nec, 0, d.a, d.c, d.rep),
        P::Samsung => (ProtocolId::NecSamsung, 0, d.a, d.c, d.rep),
        P::Apple => (ProtocolId::NecApple, 0, 0, ((d.x as u32) << 7) | d.c, d.rep),
        P::Rc5 => (ProtocolId::Rc5, 0, d.a, d.c, d.flag),
        P::Rc6 => (ProtocolId::Rc6, 0, d.a, d.c, d.flag),
        P::Sbp => (ProtocolId::Sbp, 0, d.a, d.c, false),
        P::Denon => (ProtocolId::Denon, d.x, 0, 0, false),
        P::Nec16 | P::Debug => unreachable!(),
    }
}

pub const VIEWED: [P; 7] = [P::Nec, P::Samsung, P::Apple, P::Rc5, P::Rc6, P::Sbp, P::Denon];

/// The raw field of protocols other than Denon is unspecified.
pub fn same_view(got: &View, want: &View) -> bool {
    let raw = want.0 != ProtocolId::Denon || got.1 == want.1;
    raw && (got.0, got.2, got.3, got.4) == (want.0, want.2, want.3, want.4)
}

fn c16_views(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let p = *s.pick(&VIEWED);
    let bits = wellformed_bits(p, s);
    let rep = p.is_nec() && s.bool();
    let mut d = expected(p, bits, rep).unwrap();
    if p == P::Sbp {
        d.flag = s.bool();
    }
    ctx.nontrivial = true;
    ctx.label(label(p));
    ctx.sample(|| format!("{:?}", d));
    let got = match p {
        P::Nec => view(dut::nec(&d).into()),
        P::Samsung => view(dut::samsung(&d).into()),
        P::Apple => view(dut::apple(&d).into()),
        P::Rc5 => view(dut::rc5(&d).into()),
        P::Rc6 => view(dut::rc6(&d).into()),
        P::Sbp => view(SbpCommand { address: d.a as u16, command: d.c as u8, valid: d.flag }.into()),
        _ => view(DenonCommand { bits: d.x }.into()),
    };
    let want = any_view(&d);
    ensure!(same_view(&got, &want), "AnyCommand of {:?} is {:?}, expected {:?}", d, got, want);
    Ok(())
}

/// The protocol-independent form of what a receiver reports, against the bits on the wire.
fn c16_received(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    fn go<Pr>(f: u32, edges: &[Edge]) -> Vec<View>
    where
        Pr: DecoderBuilder<u32>,
        AnyCommand: From<Pr::Cmd>,
    {
        let mut r: Receiver<Pr, NoPin, u32, AnyCommand> = Receiver::new(f);
        edges.iter().filter_map(|e| r.event(e.dt as u32, e.rising).ok().flatten()).map(view).collect()
    }
    let p = *s.pick(&VIEWED);
    let f = hist::rate(s);
    let wins = Wins::new(p.fam(), f);
    let cfg = hist::Cfg::alternating(u32::MAX as u64);
    let mut w = Wire::new(f);
    let mut want = vec![];
    for _ in 0..s.range(1, 3) {
        hist::gap_then_rise(s, &mut w, &cfg);
        let bits = wellformed_bits(p, s);
        let (v, _) = frame(s, &wins, bits, Jit::Full);
        w.pulses(&v);
        want.push(any_view(&expected(p, bits, false).unwrap()));
        if p.is_nec() && s.chance(1, 3) {
            hist::gap_then_rise(s, &mut w, &cfg);
            let (v, _) = repeat_code(s, &wins, Jit::Full);
            w.pulses(&v);
            want.push(any_view(&expected(p, bits, true).unwrap()));
        }
    }
    ctx.nontrivial = true;
    ctx.label(label(p));
    ctx.sample(|| format!("{:?}@{}: {:?}", p, f, want));
    let got = match p {
        P::Nec => go::<Nec>(f, &w.edges),
        P::Samsung => go::<SamsungNec>(f, &w.edges),
        P::Apple => go::<AppleNec>(f, &w.edges),
        P::Rc5 => go::<Rc5>(f, &w.edges),
        P::Rc6 => go::<Rc6>(f, &w.edges),
        P::Sbp => go::<Sbp>(f, &w.edges),
        _ => go::<Denon>(f, &w.edges),
    };
    ensure!(
        got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| same_view(a, b)),
        "{:?}@{} Hz received as {:?}, expected {:?}: {}",
        p,
        f,
        got,
        want,
        hist::show(&w.edges)
    );
    Ok(())
}

fn c16_ids(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let n = s.below(256) as u8;
    let want = match n {
        1 => ProtocolId::Nec,
        2 => ProtocolId::Nec16,
        3 => ProtocolId::NecSamsung,
        4 => ProtocolId::NecApple,
        5 => ProtocolId::Rc5,
        6 => ProtocolId::Rc6,
        7 => ProtocolId::Sbp,
        8 => ProtocolId::Denon,
        _ => ProtocolId::Unknown,
    };
    ctx.nontrivial = want != ProtocolId::Unknown;
    let got = ProtocolId::from(n);
    ctx.sample(|| format!("{} -> {:?}", n, got));
    ensure!(got == want, "ProtocolId::from({}) is {:?}", n, got);
    let back = want as u8;
    ensure!(ProtocolId::from(back) == want, "{:?} as u8 is {}, which is not it", want, back);
    ensure!(want == ProtocolId::Unknown || back == n, "{:?} as u8 is {}", want, back);
    Ok(())
}

pub fn laws() -> Vec<Law> {
    vec![
        Law { prop: "C01", name: "every_command", kind: Kind::Exhaustive(EXH, 8, 60), rule: "every NEC, Samsung, RC5 and RC6 command once, at a random rate of the table, received through buffer (u32/u64) or events", run: c01_every },
        Law { prop: "C01", name: "every_nec16_apple", kind: Kind::Exhaustive(ROWS, 1, 4), rule: "every 16-bit NEC and every Apple command, a random rate per row of 256 (128)", run: c01_rows },
        Law { prop: "C02", name: "every_nec16_apple", kind: Kind::Exhaustive(ROWS, 1, 4), rule: "every 16-bit NEC and every Apple command, a random rate per row of 256 (128)", run: c02_rows },
        Law { prop: "C01", name: "any_command_any_rate", kind: Kind::Random(900_000, 16_000_000), rule: "any command of the seven protocols with an encoder x 44 rates", run: c01_rates },
        Law { prop: "C01", name: "sequences", kind: Kind::Random(240_000, 5_000_000), rule: "1..6 commands with idle gaps; non-trivial: at least two", run: c01_sequence },
        Law { prop: "C02", name: "every_command", kind: Kind::Exhaustive(EXH, 6, 60), rule: "every NEC, Samsung, RC5 and RC6 command, random rate; waveform compared entry by entry", run: c02_every },
        Law { prop: "C02", name: "any_command_any_rate", kind: Kind::Random(600_000, 12_000_000), rule: "any command x 44 rates x buffer size and old content", run: c02_any },
        Law { prop: "C15", name: "nec_patterns", kind: Kind::Random(1_000_000, 40_000_000), rule: "32-bit patterns biased to almost valid ones through all five variants; non-trivial: valid for one of the checked variants", run: c15_nec },
        Law { prop: "C15", name: "nec_halves", kind: Kind::Exhaustive(131072, 4, 60), rule: "all 2^16 lower and upper halves against valid other halves", run: c15_halves },
        Law { prop: "C15", name: "all_patterns", kind: Kind::Exhaustive(65536, 1, 2), rule: "every 32-bit pattern through validate, unpack and pack of every NEC variant, 65536 per case", run: c15_all },
        Law { prop: "C15", name: "every_nec16_apple", kind: Kind::Exhaustive(ROWS, 1, 2), rule: "every 16-bit NEC and every Apple command", run: c15_rows },
        Law { prop: "C15", name: "pack", kind: Kind::Random(600_000, 20_000_000), rule: "pack of any command against the published layout", run: c15_pack },
        Law { prop: "C15", name: "rc5_rc6_sbp", kind: Kind::Exhaustive(65536, 4, 60), rule: "all 16-bit patterns", run: c15_small },
        Law { prop: "C16", name: "create_small", kind: Kind::Exhaustive(90_000, 1, 2), rule: "all address x command below 300; non-trivial: fits some protocol", run: c16_small },
        Law { prop: "C16", name: "create_any", kind: Kind::Random(300_000, 6_000_000), rule: "boundary-biased 32-bit pairs", run: c16_create },
        Law { prop: "C16", name: "any_command", kind: Kind::Random(400_000, 10_000_000), rule: "AnyCommand of any command of the seven protocols that have one", run: c16_views },
        Law { prop: "C16", name: "received", kind: Kind::Random(150_000, 3_000_000), rule: "frames and repeat codes received as AnyCommand", run: c16_received },
        Law { prop: "C16", name: "protocol_ids", kind: Kind::Exhaustive(256, 1, 1), rule: "all 256 numbers; non-trivial: a known id", run: c16_ids },
    ]
}
