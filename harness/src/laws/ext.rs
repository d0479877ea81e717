//! C21 feature sets, C23 the VCD tool: laws that build and run other programs.

use std::collections::HashMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};

use infrared::protocol::nec::SamsungNecCommand;

use crate::engine::{Ctx, Kind, Law, Outcome, Src};
use crate::ensure;
use crate::hist::{self, Cfg};
use crate::spec::*;

fn out_dir() -> PathBuf {
    crate::verif().join("target")
}

fn cargo() -> Command {
    let mut c = Command::new("cargo");
    // one target directory for the dependencies and for the crate through cargo
    c.env("CARGO_TARGET_DIR", out_dir().join("features")).stdin(Stdio::null());
    c
}

// -------------------------------------------------------------------------------------- feature sets

const PROTO_FEATURES: [&str; 6] = ["nec", "rc5", "rc6", "sbp", "denon", "remotes"];
const HAL: [&[&str]; 5] =
    [&[], &["embedded-hal"], &["fugit"], &["embedded-hal", "fugit"], &["embedded", "embedded-hal", "fugit"]];
const LOGGERS: [&[&str]; 3] = [&[], &["log"], &["defmt"]];
pub const SETS: u64 = 64 * 5 * 3;

fn set_index(bits: u64, hal: u64, logger: u64) -> u64 {
    (logger * 5 + hal) * 64 + bits
}

fn features(set: u64) -> Vec<&'static str> {
    let mut v: Vec<&'static str> =
        PROTO_FEATURES.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|x| *x.1).collect();
    v.extend(HAL[(set / 64 % 5) as usize]);
    v.extend(LOGGERS[(set / 320) as usize]);
    v
}

struct Deps {
    externs: Vec<(&'static str, PathBuf)>,
    dir: PathBuf,
    sysroot: PathBuf,
}

/// The dependencies, built once, and a sysroot without std.
fn deps() -> &'static Deps {
    static D: OnceLock<Deps> = OnceLock::new();
    D.get_or_init(|| {
        let o = cargo()
            .current_dir(crate::verif().join("features/deps"))
            .args(["build", "--offline", "--message-format=json"])
            .output()
            .expect("cannot run cargo");
        if !o.status.success() {
            panic!("building the dependencies failed: {}", String::from_utf8_lossy(&o.stderr));
        }
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        let mut externs = vec![];
        for (name, id) in
            [("embedded_hal", "embedded-hal@0.2"), ("fugit", "fugit@0.3"), ("log", "log@0.4"), ("defmt", "defmt@0.3")]
        {
            let line = text
                .lines()
                .find(|l| l.contains("compiler-artifact") && l.contains(id))
                .unwrap_or_else(|| panic!("{} not built", name));
            let end = line.find(".rlib\"").unwrap_or_else(|| panic!("no rlib for {}", name)) + 5;
            let start = line[..end].rfind('"').unwrap() + 1;
            externs.push((name, PathBuf::from(&line[start..end])));
        }
        let dir = externs[0].1.parent().unwrap().to_path_buf();

        let o = Command::new("rustc").args(["--print", "sysroot"]).output().expect("cannot run rustc");
        let real = PathBuf::from(String::from_utf8_lossy(&o.stdout).trim());
        let sub = Path::new("lib/rustlib/x86_64-unknown-linux-gnu/lib");
        let sysroot = out_dir().join("c21/sysroot");
        let _ = std::fs::remove_dir_all(&sysroot);
        std::fs::create_dir_all(sysroot.join(sub)).expect("sysroot");
        for e in std::fs::read_dir(real.join(sub)).expect("rustc libraries") {
            let e = e.unwrap();
            let n = e.file_name().to_string_lossy().to_string();
            if ["libcore-", "liballoc-", "libcompiler_builtins-"].iter().any(|p| n.starts_with(p)) {
                std::os::unix::fs::symlink(e.path(), sysroot.join(sub).join(&n)).expect("symlink");
            }
        }
        Deps { externs, dir, sysroot }
    })
}

fn rustc(set: u64) -> Command {
    let d = deps();
    let mut c = Command::new("rustc");
    // what cargo would set (defmt's macros look at it)
    c.env("CARGO_CRATE_NAME", "infrared")
        .env("CARGO_PKG_NAME", "infrared")
        .env("CARGO_PKG_VERSION", "0.0.0")
        .env("CARGO_MANIFEST_DIR", "/repo")
        .stdin(Stdio::null());
    c.args(["--edition", "2021", "--cap-lints", "allow", "-C", "overflow-checks=on", "-C", "debug-assertions=on"]);
    c.arg("-L").arg(format!("dependency={}", d.dir.display()));
    let f = features(set);
    for x in &f {
        c.arg("--cfg").arg(format!("feature=\"{}\"", x));
    }
    for (name, path) in &d.externs {
        if f.contains(&name.replace('_', "-").as_str()) {
            c.arg("--extern").arg(format!("{}={}", name, path.display()));
        }
    }
    c
}

fn errors(stderr: &[u8]) -> String {
    let t = String::from_utf8_lossy(stderr);
    let v: Vec<&str> = t
        .lines()
        .filter(|l| l.starts_with("error") || l.trim_start().starts_with("-->"))
        .take(6)
        .map(|l| l.trim())
        .collect();
    if v.is_empty() {
        t.lines().take(5).collect::<Vec<_>>().join(" / ")
    } else {
        v.join(" / ")
    }
}

fn unique() -> u64 {
    static N: AtomicU64 = AtomicU64::new(0);
    N.fetch_add(1, Ordering::Relaxed)
}

/// Compile the crate, library only, against a sysroot that has no std.
fn c21_builds(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let set = s.below(SETS);
    ctx.nontrivial = true;
    ctx.label(["no logger", "log", "defmt"][(set / 320) as usize]);
    ctx.sample(|| format!("features {:?}", features(set)));
    let dir = out_dir().join(format!("c21/meta-{}-{}", std::process::id(), unique()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let o = rustc(set)
        .args(["--crate-name", "infrared", "--crate-type", "lib", "--emit", "metadata"])
        .arg("--sysroot")
        .arg(&deps().sysroot)
        .arg("--out-dir")
        .arg(&dir)
        .arg("/repo/src/lib.rs")
        .output()
        .expect("cannot run rustc");
    let _ = std::fs::remove_dir_all(&dir);
    ensure!(o.status.success(), "does not build with features {:?}: {}", features(set), errors(&o.stderr));
    Ok(())
}

/// The same through cargo, which resolves the features itself.
fn c21_cargo(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    static LOCK: Mutex<()> = Mutex::new(());
    const FIXED: [&str; 13] = [
        "x-default",
        "",
        "x-nec",
        "x-rc5,x-log",
        "x-rc6,x-embedded-hal",
        "x-sbp,x-fugit",
        "x-denon,x-defmt",
        "x-remotes",
        "x-remotes,x-sbp,x-embedded",
        "x-embedded",
        "x-default,x-log",
        "x-default,x-defmt",
        "x-nec,x-remotes,x-embedded-hal,x-log",
    ];
    let k = s.below(40) as usize;
    let list = if k < FIXED.len() {
        FIXED[k].to_string()
    } else {
        features(s.below(SETS)).iter().map(|f| format!("x-{}", f)).collect::<Vec<_>>().join(",")
    };
    deps();
    ctx.nontrivial = true;
    ctx.sample(|| format!("cargo build --features {}", list));
    let _one = LOCK.lock().unwrap_or_else(|e| e.into_inner());
    let o = cargo()
        .current_dir(crate::verif().join("features/via_cargo"))
        .args(["build", "--offline", "--no-default-features", "--features", &list])
        .output()
        .expect("cannot run cargo");
    ensure!(o.status.success(), "cargo build fails with features {:?}: {}", list, errors(&o.stderr));
    Ok(())
}

/// The digest program built with a feature set.
fn digest(set: u64) -> Result<PathBuf, String> {
    type Slot = Arc<OnceLock<Result<PathBuf, String>>>;
    static BUILT: OnceLock<Mutex<HashMap<u64, Slot>>> = OnceLock::new();
    let slot = BUILT.get_or_init(Default::default).lock().unwrap().entry(set).or_default().clone();
    slot.get_or_init(|| {
        let dir = out_dir().join(format!("c21/set-{}-{}", std::process::id(), set));
        std::fs::create_dir_all(&dir).expect("scratch");
        let lib = dir.join("libinfrared.rlib");
        let o = rustc(set)
            .args(["--crate-name", "infrared", "--crate-type", "rlib", "-C", "opt-level=1", "-o"])
            .arg(&lib)
            .arg("/repo/src/lib.rs")
            .output()
            .expect("cannot run rustc");
        if !o.status.success() {
            return Err(format!("does not build with features {:?}: {}", features(set), errors(&o.stderr)));
        }
        let bin = dir.join("digest");
        let o = rustc(set)
            .args(["--crate-name", "digest", "-o"])
            .arg(&bin)
            .arg("--extern")
            .arg(format!("infrared={}", lib.display()))
            .arg(crate::verif().join("features/digest.rs"))
            .output()
            .expect("cannot run rustc");
        if !o.status.success() {
            // a user's program that compiles with default features does not with these
            return Err(format!("a program using the enabled parts does not build with features {:?}: {}", features(set), errors(&o.stderr)));
        }
        Ok(bin)
    })
    .clone()
}

fn feed(bin: &Path, input: &str) -> Result<String, String> {
    let mut ch = Command::new(bin)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("cannot start digest");
    let mut stdin = ch.stdin.take().unwrap();
    let text = input.to_string();
    let h = std::thread::spawn(move || {
        let _ = stdin.write_all(text.as_bytes());
    });
    let o = ch.wait_with_output().expect("digest");
    let _ = h.join();
    if !o.status.success() {
        return Err(String::from_utf8_lossy(&o.stderr).lines().take(4).collect::<Vec<_>>().join(" / "));
    }
    Ok(String::from_utf8_lossy(&o.stdout).to_string())
}

fn c21_digest(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let slot = s.below(48);
    // each protocol alone with each logger (with or without the rest of the features), then any set
    let set = if slot < 15 {
        set_index(1 << (slot % 5) | (slot & 1) << 5, slot * 7 % 5, slot / 5)
    } else {
        s.below(SETS)
    };
    let on: Vec<P> = ALL
        .iter()
        .copied()
        .filter(|p| {
            set >> match p.fam() {
                Fam::NecStd | Fam::NecSam => 0,
                Fam::Rc5 => 1,
                Fam::Rc6 => 2,
                Fam::Sbp => 3,
                Fam::Denon => 4,
            } & 1
                == 1
        })
        .collect();
    let mut input = String::new();
    if !on.is_empty() {
        for _ in 0..s.range(20, 100) {
            let p = *s.pick(&on);
            let f = *s.pick(&[1_000_000, 40_000, 50_000, 250_000, 64_000]);
            let mut cfg = if s.bool() { Cfg::wild(u32::MAX as u64) } else { Cfg::alternating(u32::MAX as u64) };
            cfg.segs = 3;
            let mut w = hist::history(s, p, f, &cfg, ctx);
            hist::gap_then_rise(s, &mut w, &cfg);
            let bits = any_bits(p, s);
            let (v, _) = frame(s, &Wins::new(p.fam(), f), bits, Jit::Full);
            w.pulses(&v);
            input.push_str(&format!("h {}", f));
            for e in &w.edges {
                input.push_str(&format!(" {}{}", if e.rising { 'r' } else { 'f' }, e.dt.min(u32::MAX as u64)));
            }
            input.push('\n');
        }
        for _ in 0..s.range(1, 40) {
            let a = if s.bool() { *s.pick(&[0, 7, 20, 32, 238]) } else { s.bits(16) };
            input.push_str(&format!("c {} {} {} {}\n", a, s.bits(8), s.bits(32), s.below(2)));
        }
    }
    ctx.sample(|| format!("features {:?}, input {}", features(set), &input[..input.len().min(600)]));
    let reference = digest(set_index(63, 4, 0))?;
    let want = feed(&reference, &input).map_err(|e| format!("with default features: {} on input {}", e, input))?;
    let got = feed(&digest(set)?, &input).map_err(|e| format!("with features {:?}: {} on input {}", features(set), e, input))?;
    let key = |l: &str| l.splitn(3, '\t').take(2).collect::<Vec<_>>().join(" ");
    let map: HashMap<String, &str> = want.lines().map(|l| (key(l), l)).collect();
    ctx.nontrivial = got.contains("Some");
    ctx.label(["no logger", "log", "defmt"][(set / 320) as usize]);
    ensure!(on.is_empty() || !got.is_empty(), "features {:?}: no output for {}", features(set), input);
    for l in got.lines() {
        ctx.inner += 1;
        let w = map.get(&key(l)).copied();
        if w != Some(l) {
            let n: usize = l.split('\t').next().and_then(|x| x.parse().ok()).unwrap_or(0);
            return Err(format!(
                "features {:?}: section {:?} differs from the default features ({:?}) on {}",
                features(set),
                l,
                w,
                input.lines().nth(n).unwrap_or("")
            ));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C23

fn vcdtool() -> &'static Result<PathBuf, String> {
    static B: OnceLock<Result<PathBuf, String>> = OnceLock::new();
    B.get_or_init(|| {
        let o = cargo()
            .env("CARGO_TARGET_DIR", out_dir().join("vcdtool"))
            .current_dir(crate::verif().join("vcdtool"))
            .args(["build", "--release", "--offline"])
            .output()
            .expect("cannot run cargo");
        if !o.status.success() {
            return Err(String::from_utf8_lossy(&o.stderr).to_string());
        }
        Ok(out_dir().join("vcdtool/release/vcdtool"))
    })
}

fn c23_run(text: &str, wire: Option<&str>) -> Result<(bool, String, String), String> {
    let tool = match vcdtool() {
        Ok(t) => t,
        Err(e) => return Err(format!("the tool does not build: {}", errors(e.as_bytes()))),
    };
    let dir = out_dir().join("c23");
    std::fs::create_dir_all(&dir).expect("scratch");
    let file = dir.join(format!("{}-{}.vcd", std::process::id(), unique()));
    std::fs::write(&file, text).expect("scratch file");
    let mut c = Command::new(tool);
    c.arg(&file);
    if let Some(w) = wire {
        c.arg(w);
    }
    let o = c.stdin(Stdio::null()).output().expect("cannot start the tool");
    let _ = std::fs::remove_file(&file);
    Ok((
        o.status.success(),
        String::from_utf8_lossy(&o.stdout).to_string(),
        String::from_utf8_lossy(&o.stderr).to_string(),
    ))
}

fn c23_capture(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let n = *s.pick(&[25, 1, 10, 2, 5, 20, 3, 7, 12, 24, 15, 50, 40]);
    let f = 1_000_000 / n as u32;
    let jit = if n <= 25 && s.bool() { Jit::Full } else { Jit::Nominal };
    let w = Wins::new(Fam::NecSam, f);
    let mut wire = Wire::new(f);
    let mut want = vec![];
    let mut last: Option<SamsungNecCommand> = None;
    let mut damaged = false;
    let cfg = Cfg { zero: false, max: 1 << 40, nonalt: false, segs: 1, cap: f as u64 };
    let items = s.below(6);
    for _ in 0..items {
        hist::gap_then_rise(s, &mut wire, &cfg);
        match s.weighted(&[4, 3, 2, 1]) {
            1 if last.is_some() && !damaged => {
                let (v, _) = repeat_code(s, &w, jit);
                wire.pulses(&v);
                let c = last.unwrap();
                want.push(format!("Cmd: {:?}", SamsungNecCommand { repeat: true, ..c }));
                ctx.label("repeat");
            }
            2 => {
                // cut off in the middle
                let b = wellformed_bits(P::Samsung, s);
                let (v, _) = frame(s, &w, b, jit);
                let k = 1 + 2 * s.below(32) as usize;
                wire.pulses(&v[..k]);
                damaged = true;
                ctx.label("truncated");
            }
            3 => {
                // one space of 4 ms among the bits
                let b = wellformed_bits(P::Samsung, s);
                let (mut v, _) = frame(s, &w, b, Jit::Nominal);
                let k = 3 + 2 * s.below(32) as usize;
                v[k] = to_ticks(4000, f);
                wire.pulses(&v);
                damaged = true;
                ctx.label("stretched");
            }
            _ => {
                let b = wellformed_bits(P::Samsung, s);
                let (v, _) = frame(s, &w, b, jit);
                wire.pulses(&v);
                let c = SamsungNecCommand { addr: b as u8, cmd: (b >> 16) as u8, repeat: false };
                want.push(format!("Cmd: {:?}", c));
                last = Some(c);
                damaged = false;
                ctx.label("frame");
            }
        }
    }
    // the file
    let named = s.below(3) == 2;
    let name = if named { "sensor" } else { "ir" };
    let mut t = String::new();
    if s.bool() {
        t.push_str("$date today $end\n$version 1 $end\n$comment a capture $end\n");
    }
    t.push_str(&format!("$timescale {} us $end\n$scope module top $end\n", n));
    let other = s.bool();
    let after = s.bool();
    if other && !after {
        t.push_str("$var wire 1 a other $end\n$var wire 4 b bus $end\n");
    }
    if named {
        t.push_str("$var wire 1 c ir $end\n");
    }
    t.push_str(&format!("$var wire 1 ! {} $end\n", name));
    if other && after {
        t.push_str("$var wire 1 a other $end\n$var wire 4 b bus $end\n");
    }
    t.push_str("$upscope $end\n$enddefinitions $end\n");
    match s.below(3) {
        0 => t.push_str("$dumpvars\n0!\n$end\n"),
        1 => t.push_str("$dumpvars\nx!\n$end\n"),
        _ => {}
    }
    let mut at = match s.below(3) {
        0 => 0,
        1 => s.log(1 << 20),
        _ => s.log(1 << 50),
    };
    let noise = |s: &mut Src, t: &mut String, named: bool| {
        if other && s.below(6) == 0 {
            t.push_str(s.pick(&["1a\n", "0a\n", "xa\n", "za\n", "b1010 b\n"]));
        }
        if named && s.below(4) == 0 {
            t.push_str(s.pick(&["1c\n", "0c\n"]));
        }
    };
    for e in &wire.edges {
        if other && e.dt > 2 && s.below(4) == 0 {
            t.push_str(&format!("#{}\n", at + e.dt / 2));
            t.push_str(s.pick(&["1a\n", "0a\n", "xa\n", "b0001 b\n"]));
        }
        at += e.dt;
        t.push_str(&format!("#{}\n", at));
        noise(s, &mut t, named);
        t.push_str(if e.rising { "1!\n" } else { "0!\n" });
        noise(s, &mut t, named);
    }
    ctx.nontrivial = want.len() > 1;
    ctx.sample(|| format!("{} us: {:?}", n, want));
    let (ok, out, err) = c23_run(&t, if named { Some(name) } else { None })?;
    ensure!(ok, "the tool fails: {} on\n{}", err, t);
    let head = format!("Samples captured at: {} Hz", f);
    ensure!(out.lines().next() == Some(head.as_str()), "time scale {} us: printed {:?}, expected {:?}", n, out.lines().next(), head);
    let got: Vec<&str> = out.lines().filter(|l| l.starts_with("Cmd:")).collect();
    ensure!(got == want, "printed {:?}, the capture has {:?}:\n{}", got, want, t);
    Ok(())
}

fn c23_scales(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let n = s.range(1, 1000);
    let ms = s.bool();
    let rate = if ms { 1000 } else { 1_000_000 } / n;
    let t = format!(
        "$timescale {} {} $end\n$scope module top $end\n$var wire 1 ! ir $end\n$upscope $end\n$enddefinitions $end\n#0\n0!\n#{}\n1!\n#{}\n0!\n",
        n,
        if ms { "ms" } else { "us" },
        s.log(1 << 30),
        (1u64 << 30) + s.log(1 << 40)
    );
    ctx.nontrivial = n > 1;
    ctx.sample(|| format!("{} {}", n, if ms { "ms" } else { "us" }));
    let (ok, out, err) = c23_run(&t, None)?;
    ensure!(ok, "the tool fails: {} on\n{}", err, t);
    let head = format!("Samples captured at: {} Hz", rate);
    ensure!(out.lines().next() == Some(head.as_str()), "printed {:?}, expected {:?} for\n{}", out, head, t);
    ensure!(!out.contains("Cmd:"), "printed a command for two edges: {}", out);
    Ok(())
}

pub fn laws() -> Vec<Law> {
    vec![
        Law {
            prop: "C21",
            name: "builds",
            kind: Kind::Exhaustive(SETS, 1, 1),
            rule: "every set of {nec,rc5,rc6,sbp,denon,remotes} x {none, embedded-hal, fugit, both, embedded} x {no logger, log, defmt}, compiled against a sysroot without std; all non-trivial",
            run: c21_builds,
        },
        Law {
            prop: "C21",
            name: "cargo",
            kind: Kind::Exhaustive(40, 1, 2),
            rule: "feature lists resolved and built by cargo; all non-trivial",
            run: c21_cargo,
        },
        Law {
            prop: "C21",
            name: "decodes_alike",
            kind: Kind::Exhaustive(48, 4, 120),
            rule: "a program using the enabled protocols, built with the feature set and with the default one, given the same histories and commands; non-trivial: it reports a command",
            run: c21_digest,
        },
        Law {
            prop: "C23",
            name: "captures",
            kind: Kind::Random(2000, 40_000),
            rule: "VCD files of Samsung frames, repeats and damaged frames, with other wires; non-trivial: at least two commands in it",
            run: c23_capture,
        },
        Law {
            prop: "C23",
            name: "time_scales",
            kind: Kind::Random(400, 4000),
            rule: "time scales of 1..1000 us or ms; non-trivial: not 1",
            run: c23_scales,
        },
    ]
}
