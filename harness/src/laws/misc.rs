//! C17 remote-control models.

use infrared::cmd::{AddressCommand, Command};
use infrared::protocol::nec::{AppleNecCommand, NecCommand, SamsungNecCommand};
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::sbp::SbpCommand;
use infrared::protocol::{AppleNec, Nec, Rc5, SamsungNec, Sbp};
use infrared::receiver::{DecoderBuilder, NoPin, Receiver};
use infrared::remotecontrol::nec::{Apple2009, SamsungTv, SpecialForMp3};
use infrared::remotecontrol::rc5::CdPlayer;
use infrared::remotecontrol::sbp::SamsungBluRayPlayer;
use infrared::remotecontrol::Action::{self, *};
use infrared::remotecontrol::{Button, RemoteControlModel};
use infrared::ProtocolId;

use crate::engine::{Ctx, Kind, Law, Outcome, Src};
use crate::ensure;
use crate::hist::{self, Cfg};
use crate::spec::*;

pub const ACTIONS: &[(Action, &str)] = &[
    (Power, "power"), (Source, "source"), (One, "one"), (Two, "two"), (Three, "three"), (Four, "four"),
    (Five, "five"), (Six, "six"), (Seven, "seven"), (Eight, "eight"), (Nine, "nine"), (Zero, "zero"),
    (Teletext, "teletext"), (ChannelPrev, "channel_prev"), (VolumeUp, "volume_up"),
    (VolumeDown, "volume_down"), (VolumeMute, "volume_mute"), (ChannelList, "channellist"),
    (ChannelListNext, "channellist_next"), (ChannelListPrev, "channellist_prev"), (Tools, "tools"),
    (Info, "info"), (Return, "return"), (Exit, "exit"), (Enter, "enter"), (Up, "up"), (Down, "down"),
    (Left, "left"), (Right, "right"), (Red, "red"), (Green, "green"), (Yellow, "yellow"), (Blue, "blue"),
    (Emanual, "e_manual"), (PictureSize, "picture_size"), (Subtitle, "subtitle"), (Stop, "stop"),
    (Rewind, "rewind"), (Play, "play"), (Paus, "pause"), (Play_Pause, "play_pause"),
    (Play_Pause2, "play_pause2"), (Forward, "forward"), (Mode, "mode"), (Shuffle, "shuffle"), (U_SD, "u_sd"),
    (Plus, "plus"), (Minus, "minus"), (Next, "next"), (Prev, "prev"), (Eq, "equalizer"), (Mute, "mute"),
    (Random, "random"), (Repeat, "repeat"), (Time, "time"), (Setup, "setup"), (Menu, "menu"),
    (PitchReset, "pitch_reset"), (PitchPlus, "pitch_plus"), (PitchMinus, "pitch_minus"), (Prog, "program"),
    (BatteryLow, "battery_low"),
];

pub const SAMSUNG_TV: &[(u32, Action)] = &[
    (2, Power), (1, Source), (4, One), (5, Two), (6, Three), (8, Four), (9, Five), (10, Six), (12, Seven),
    (13, Eight), (14, Nine), (17, Zero), (44, Teletext), (19, ChannelPrev), (7, VolumeUp), (11, VolumeDown),
    (15, VolumeMute), (107, ChannelList), (18, ChannelListNext), (16, ChannelListPrev), (75, Tools),
    (31, Info), (88, Return), (45, Exit), (104, Enter), (96, Up), (97, Down), (101, Left), (98, Right),
    (108, Red), (20, Green), (21, Yellow), (22, Blue), (63, Emanual), (62, PictureSize), (37, Subtitle),
    (70, Stop), (69, Rewind), (71, Play), (74, Paus), (72, Forward),
];
pub const MP3: &[(u32, Action)] = &[
    (69, Power), (70, Mode), (71, Mute), (68, Play_Pause), (64, Prev), (67, Next), (7, Eq), (21, Minus),
    (9, Plus), (22, Zero), (25, Shuffle), (13, U_SD), (12, One), (24, Two), (94, Three), (8, Four), (28, Five),
    (90, Six), (66, Seven), (82, Eight), (74, Nine),
];
pub const CD_PLAYER: &[(u32, Action)] = &[
    (1, One), (2, Two), (3, Three), (4, Four), (5, Five), (6, Six), (7, Seven), (8, Eight), (9, Nine),
    (11, Time), (12, Power), (16, Up), (17, Down), (18, Setup), (21, Left), (22, Right), (23, Enter),
    (28, Random), (29, Repeat), (32, Next), (33, Prev), (37, PitchReset), (38, PitchPlus), (39, PitchMinus),
    (41, Prog), (48, Paus), (53, Play), (54, Stop),
];
pub const BLURAY: &[(u32, Action)] = &[
    (2, One), (3, Two), (4, Three), (5, Four), (6, Five), (7, Six), (8, Seven), (9, Eight), (10, Nine),
];
/// page << 8 | command
pub const APPLE: &[(u32, Action)] = &[
    (0x0e01, Menu), (0x0e02, Play_Pause), (0x0e03, Right), (0x0e04, Left), (0x0e05, Up), (0x0e06, Down),
    (0x0e2e, Enter), (0x0e2f, Play_Pause2), (0x0003, BatteryLow), (0x0007, BatteryLow),
];

pub fn acts(t: &[(u32, Action)]) -> Vec<Action> {
    t.iter().map(|x| x.1).collect()
}

fn find(t: &[(u32, Action)], c: u32) -> Option<Action> {
    t.iter().find(|x| x.0 == c).map(|x| x.1)
}

/// Encode: every action of the library for one remote.
fn encode_all<R>(addr: u32, t: &[(u32, Action)], id: ProtocolId, a: Action) -> Result<bool, String>
where
    R: RemoteControlModel,
{
    ensure!(R::ADDRESS == addr, "{}: address {}", R::MODEL, R::ADDRESS);
    ensure!(R::PROTOCOL == id && R::Cmd::ID == id, "{}: protocol {:?}, commands of {:?}", R::MODEL, R::PROTOCOL, R::Cmd::ID);
    let want = t.iter().find(|x| x.1 == a).map(|x| x.0);
    let got = R::encode(&a);
    let shown = got.as_ref().map(|c| (c.address(), c.command(), c.is_repeat()));
    ensure!(shown == want.map(|c| (addr, c, false)), "{}: {:?} encodes as {:?}, expected code {:?}", R::MODEL, a, shown, want);
    if let Some(c) = got {
        let back = R::decode(&c);
        ensure!(back == Some(a), "{}: {:?} encodes to a command that decodes as {:?}", R::MODEL, a, back);
        return Ok(true);
    }
    Ok(false)
}

fn c17_encode(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let a = ACTIONS[s.below(ACTIONS.len() as u64) as usize].0;
    ctx.sample(|| format!("{:?}", a));
    let mut n = false;
    n |= encode_all::<SamsungTv>(7, SAMSUNG_TV, ProtocolId::NecSamsung, a)?;
    n |= encode_all::<SpecialForMp3>(0, MP3, ProtocolId::Nec, a)?;
    n |= encode_all::<CdPlayer>(20, CD_PLAYER, ProtocolId::Rc5, a)?;
    n |= encode_all::<SamsungBluRayPlayer>(32, BLURAY, ProtocolId::Sbp, a)?;
    // Apple commands cannot be created
    ensure!(Apple2009::encode(&a).is_none(), "Apple2009: {:?} encodes", a);
    ensure!(Apple2009::PROTOCOL == ProtocolId::NecApple, "Apple2009: protocol {:?}", Apple2009::PROTOCOL);
    ctx.nontrivial = n;
    // names
    let name = ACTIONS.iter().find(|x| x.0 == a).unwrap().1;
    ensure!(a.to_str() == name, "{:?} is named {:?}", a, a.to_str());
    for (b, _) in ACTIONS {
        ensure!(*b == a || b.to_str() != a.to_str(), "{:?} and {:?} share the name {:?}", a, b, a.to_str());
    }
    Ok(())
}

fn dec<R: RemoteControlModel>(t: &[(u32, Action)], code: Option<u32>, c: R::Cmd) -> Result<bool, String>
where
    Button<R>: From<R::Cmd>,
    R::Cmd: Copy + PartialEq + core::fmt::Debug,
{
    let want = code.and_then(|k| find(t, k));
    let got = R::decode(&c);
    ensure!(got == want, "{}: {:?} decodes as {:?}, expected {:?}", R::MODEL, c, got, want);
    let b: Button<R> = Button::from(c);
    ensure!(
        b.action() == want && *b.command() == c && b.is_repeat() == c.is_repeat(),
        "{}: button of {:?} has action {:?}, command {:?}, repeat {}",
        R::MODEL,
        c,
        b.action(),
        b.command(),
        b.is_repeat()
    );
    Ok(want.is_some())
}

/// Every address and command of the 8-bit protocols.
fn c17_decode8(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let i = s.below(65536) as u32;
    let (a, c) = ((i >> 8) as u8, i as u8);
    let rep = s.bool();
    ctx.sample(|| format!("address {} command {}", a, c));
    let at = |addr: u8| (a == addr).then_some(c as u32);
    let mut n = false;
    n |= dec::<SamsungTv>(SAMSUNG_TV, at(7), SamsungNecCommand { addr: a, cmd: c, repeat: rep })?;
    n |= dec::<SpecialForMp3>(MP3, at(0), NecCommand { addr: a, cmd: c, repeat: rep })?;
    let rc5 = Rc5Command { addr: a & 0x1f, cmd: c & 0x3f, start: 2 + s.below(2) as u8, toggle: rep };
    n |= dec::<CdPlayer>(CD_PLAYER, (rc5.addr == 20).then_some(rc5.cmd.into()), rc5)?;
    // Apple: page and command, any device
    let ap = AppleNecCommand { command_page: a & 0x1f, command: c & 0x7f, device_id: s.bits(8) as u8, repeat: rep };
    n |= dec::<Apple2009>(APPLE, Some((ap.command_page as u32) << 8 | ap.command as u32), ap)?;
    ctx.nontrivial = n;
    Ok(())
}

fn c17_decode16(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let i = s.below(65536) as u16;
    let c = s.bits(8) as u8;
    let valid = s.bool();
    ctx.sample(|| format!("address {}", i));
    let mut n = false;
    for cmd in [c, 2, 10] {
        n |= dec_sbp((i == 32).then_some(cmd.into()), SbpCommand { address: i, command: cmd, valid })?;
    }
    // every code at the right address
    for cmd in 0..=255u8 {
        if i == 32 || i % 256 == 32 {
            n |= dec_sbp((i == 32).then_some(cmd.into()), SbpCommand { address: i, command: cmd, valid })?;
            ctx.inner += 1;
        }
    }
    ctx.nontrivial = n;
    Ok(())
}

fn dec_sbp(code: Option<u32>, c: SbpCommand) -> Result<bool, String> {
    let want = code.and_then(|k| find(BLURAY, k));
    let (a, k, v) = (c.address, c.command, c.valid);
    let got = SamsungBluRayPlayer::decode(&c);
    ensure!(got == want, "Blu-ray: address {} command {} decodes as {:?}, expected {:?}", a, k, got, want);
    let b: Button<SamsungBluRayPlayer> = Button::from(c);
    let r = b.command();
    ensure!(
        b.action() == want && (r.address, r.command, r.valid) == (a, k, v) && !b.is_repeat(),
        "Blu-ray: button of address {} command {} has action {:?}, command {:?}, repeat {}",
        a,
        k,
        b.action(),
        r,
        b.is_repeat()
    );
    Ok(want.is_some())
}

fn received<R, Pr>(f: u32, edges: &[Edge], to: fn(&R::Cmd) -> Dec) -> (Vec<(Dec, Option<Action>, bool)>, Vec<Dec>)
where
    R: RemoteControlModel,
    Pr: infrared::Protocol<Cmd = R::Cmd> + DecoderBuilder<u32>,
    Button<R>: From<R::Cmd>,
{
    let mut r: Receiver<Pr, NoPin, u32, Button<R>> = Receiver::new(f);
    let mut plain: Receiver<Pr> = Receiver::new(f);
    let mut a = vec![];
    let mut b = vec![];
    for e in edges {
        if let Ok(Some(x)) = r.event(e.dt as u32, e.rising) {
            a.push((to(x.command()), x.action(), x.is_repeat()));
        }
        if let Ok(Some(c)) = plain.event(e.dt as u32, e.rising) {
            b.push(to(&c));
        }
    }
    (a, b)
}

pub fn sbp_dec(c: &SbpCommand) -> Dec {
    Dec { p: P::Sbp, a: c.address.into(), c: c.command.into(), x: 0, rep: false, flag: c.valid }
}

/// Buttons out of a receiver: frames of the remote, of other addresses, unknown codes, repeats.
fn c17_received(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let f = 1_000_000;
    let which = s.below(5);
    let (p, t, addr): (P, &[(u32, Action)], u64) = match which {
        0 => (P::Samsung, SAMSUNG_TV, 7),
        1 => (P::Nec, MP3, 0),
        2 => (P::Rc5, CD_PLAYER, 20),
        3 => (P::Sbp, BLURAY, 32),
        _ => (P::Apple, APPLE, 0),
    };
    let wins = Wins::new(p.fam(), f);
    let cfg = Cfg::alternating(u32::MAX as u64);
    let mut w = Wire::new(f);
    let mut want: Vec<(Dec, Option<Action>, bool)> = vec![];
    for _ in 0..s.range(1, 4) {
        hist::gap_then_rise(s, &mut w, &cfg);
        if p.is_nec() && !want.is_empty() && s.chance(1, 3) {
            let (v, _) = repeat_code(s, &wins, Jit::Full);
            w.pulses(&v);
            let l = *want.last().unwrap();
            want.push((Dec { rep: true, ..l.0 }, l.1, true));
            continue;
        }
        let code = if s.chance(1, 4) { s.bits(8) } else { s.pick(t).0 as u64 };
        let a = if s.chance(1, 4) { s.bits(5) } else { addr };
        let bits = match p {
            P::Samsung => a | a << 8 | (code & 0xff) << 16 | (!code & 0xff) << 24,
            P::Nec => a | (!a & 0xff) << 8 | (code & 0xff) << 16 | (!code & 0xff) << 24,
            P::Rc5 => (code & 0x3f) | a << 6 | s.below(2) << 11 | 3 << 12,
            P::Sbp => a | (code & 0xff) << 20 | (!code & 0xff) << 28,
            _ => apple_bits(code >> 8, code & 0x7f, s.bits(8)),
        };
        let d = expected(p, bits, false).expect("harness: frame");
        let (v, _) = frame(s, &wins, bits, Jit::Full);
        w.pulses(&v);
        let act = if p == P::Apple {
            find(t, (d.x as u32) << 8 | d.c)
        } else if u64::from(d.a) == addr {
            find(t, d.c)
        } else {
            None
        };
        // RC5 takes its repeat flag from the toggle bit
        want.push((d, act, p == P::Rc5 && d.flag));
    }
    ctx.nontrivial = want.iter().any(|x| x.1.is_some());
    ctx.sample(|| format!("{:?}: {:?}", p, want));
    let (got, plain) = match which {
        0 => received::<SamsungTv, SamsungNec>(f, &w.edges, |c| (*c).into()),
        1 => received::<SpecialForMp3, Nec>(f, &w.edges, |c| (*c).into()),
        2 => received::<CdPlayer, Rc5>(f, &w.edges, |c| (*c).into()),
        3 => received::<SamsungBluRayPlayer, Sbp>(f, &w.edges, sbp_dec),
        _ => received::<Apple2009, AppleNec>(f, &w.edges, |c| (*c).into()),
    };
    ensure!(got == want, "{:?} receiver reports the buttons {:?}, expected {:?}", p, got, want);
    let cs: Vec<Dec> = got.iter().map(|x| x.0).collect();
    ensure!(cs == plain, "{:?}: buttons carry {:?}, commands are {:?}", p, cs, plain);
    Ok(())
}

pub fn laws() -> Vec<Law> {
    vec![
        Law { prop: "C17", name: "encode", kind: Kind::Exhaustive(ACTIONS.len() as u64, 1, 1), rule: "all 62 actions x 5 remotes against the code tables of the remotes, names; non-trivial: some remote has the button", run: c17_encode },
        Law { prop: "C17", name: "decode_8bit", kind: Kind::Exhaustive(65536, 1, 4), rule: "all 2^16 address/command pairs (NEC, Samsung; RC5 and Apple reduced to their fields); non-trivial: some remote has it", run: c17_decode8 },
        Law { prop: "C17", name: "decode_16bit", kind: Kind::Exhaustive(65536, 1, 4), rule: "all 16-bit Blu-ray addresses, all codes at the right one", run: c17_decode16 },
        Law { prop: "C17", name: "received", kind: Kind::Random(60_000, 1_500_000), rule: "buttons out of receivers: right and other addresses, unknown codes, repeats; non-trivial: a button is due", run: c17_received },
    ]
}
