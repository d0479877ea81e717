//! irpbt: property-based checks of the infrared crate.
//!   irpbt run <ID>        run all laws of a property (VERIF_SEED, VERIF_TIER)
//!   irpbt replay <file>   run the case in a replay file
//!   irpbt fuzz <ID> <s>   coverage-guided search over the laws of a property, s seconds in all
//!                         (builds with the `cov` feature)
//!   irpbt list            list the laws

mod alloc;
#[cfg(feature = "cov")]
mod cov;
mod dut;
mod engine;
mod hist;
mod laws;
mod spec;

use engine::*;

#[global_allocator]
static ALLOC: alloc::Cache = alloc::Cache;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::time::Instant;

pub fn verif() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}

fn is_thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

/// What the coverage-guided search leaves for the evidence file.
fn fuzz_notes(id: &str) -> PathBuf {
    verif().join(format!("target/fuzz-{}.json", id))
}

fn write_replay(law: &Law, seed: u64, index: u64, choices: &[u64], original: &[u64], msg: &str, sample: &str) -> PathBuf {
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", law.prop, law.name));
    let body = format!(
        "{{\"property\":{},\n\"law\":{},\n\"seed\":{},\n\"index\":{},\n\"choices\":{},\n\"original\":{},\n\"message\":{},\n\"case\":{}}}\n",
        jstr(law.prop),
        jstr(law.name),
        seed,
        index,
        jarr(choices),
        jarr(original),
        jstr(msg),
        jstr(sample)
    );
    if let Err(e) = std::fs::write(&path, body) {
        eprintln!("cannot write {}: {}", path.display(), e);
    }
    path
}

fn on_hang(law: &Law, index: u64, slot: usize) {
    let seed = env_u64("VERIF_SEED", 1);
    let _ = slot;
    #[cfg(feature = "cov")]
    if index == u64::MAX {
        // in this file the seed is that of the choices after the listed ones
        let (v, tail) = cov::at_work(slot);
        let p = write_replay(law, tail, index, &v, &v, "case of the search does not terminate", "");
        println!("law {}: a case of the search does not terminate within {:?}", law.name, HANG);
        println!("VIOLATION property={} replay={}", law.prop, p.display());
        std::process::exit(1);
    }
    let p = write_replay(law, seed, index, &[], &[], "case (or one of the 64 after it) does not terminate", "");
    println!("law {}: case {} does not terminate within {:?}", law.name, index, HANG);
    println!("VIOLATION property={} replay={}", law.prop, p.display());
    std::process::exit(1);
}

fn write_evidence(id: &str, tier: &str, seed: u64, reports: &[LawReport], wall: f64) {
    let mut laws_json = vec![];
    let mut samples = vec![];
    let mut rules = vec![];
    let mut ev = 0;
    let mut inner = 0;
    let mut dn = 0;
    let mut viol = 0;
    for r in reports {
        ev += r.evaluations;
        inner += r.inner;
        dn += r.distinct;
        viol += u64::from(r.failure.is_some());
        rules.push(format!("[{}] {}", r.name, r.rule));
        for s in &r.samples {
            samples.push(jstr(&format!("{}: {}", r.name, s)));
        }
        let labels: Vec<String> = r.labels.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
        laws_json.push(format!(
            "{{\"law\":{},\"rule\":{},\"evaluations\":{},\"inner_evaluations\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"exhaustive_first_draw\":{},\"wall_s\":{:.3},\"violation\":{},\"labels\":{{{}}}}}",
            jstr(r.name),
            jstr(r.rule),
            r.evaluations,
            r.inner,
            r.nontrivial,
            r.distinct,
            r.exhaustive,
            r.wall,
            r.failure.as_ref().map(|f| jstr(&f.message)).unwrap_or_else(|| "null".into()),
            labels.join(",")
        ));
    }
    let exhaustive = !reports.is_empty() && reports.iter().all(|r| r.exhaustive);
    let body = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\n\"coverage\":{{\"evaluations\":{},\"inner_evaluations\":{},\"distinct_nontrivial\":{},\"exhaustive\":{},\"rule\":{},\n\"samples\":[{}],\n\"laws\":[{}],\n\"coverage_guided\":[{}]}},\n\"assumptions\":{},\n\"wall_s\":{:.3},\"violations\":{}}}\n",
        jstr(id),
        jstr(tier),
        seed,
        ev,
        inner,
        dn,
        exhaustive,
        jstr(&format!("Cases are choice sequences drawn from the seed; distinct = distinct choice sequence. Non-trivial, per law: {}", rules.join(" "))),
        samples.join(",\n"),
        laws_json.join(",\n"),
        std::fs::read_to_string(fuzz_notes(id)).unwrap_or_default(),
        "[\"the waveform tables and tolerances in harness/src/spec.rs state the published protocols\",\"the crate is judged as built for x86_64 with overflow checks and debug assertions\",\"search, not proof: silence covers the generated cases only\"]",
        wall,
        viol
    );
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", id)), body) {
        eprintln!("cannot write evidence: {}", e);
        std::process::exit(3);
    }
}

fn run(id: &str, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = is_thorough();
    let cfg = RunCfg {
        seed,
        thorough,
        threads: env_u64("IRPBT_THREADS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8)) as usize,
        scale: std::env::var("IRPBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 8.0 } else { 24.0 }),
        until: if thorough { None } else { Some(t0 + std::time::Duration::from_secs(420)) },
    };
    let todo: Vec<Law> = laws::all()
        .into_iter()
        .filter(|l| l.prop == id && only.map(|o| l.name == o).unwrap_or(true))
        .collect();
    if todo.is_empty() {
        eprintln!("no laws for {}", id);
        return 3;
    }
    start_watchdog(on_hang);
    let mut reports = vec![];
    let mut bad = 0;
    for law in &todo {
        let r = run_law(law, &cfg);
        println!(
            "{} {:<28} cases {:>9} inner {:>11} nontrivial {:>9} distinct {:>9} {:>7.2}s {}",
            law.prop,
            law.name,
            r.evaluations,
            r.inner,
            r.nontrivial,
            r.distinct,
            r.wall,
            if r.failure.is_some() { "FAIL" } else { "ok" }
        );
        if std::env::var_os("IRPBT_LABELS").is_some() {
            let l: &BTreeMap<_, _> = &r.labels;
            println!("    {:?}", l);
        }
        if let Some(f) = &r.failure {
            bad += 1;
            let p = write_replay(law, seed, f.index, &f.shrunk, &f.original, &f.message, &f.sample);
            println!("  case {}: {}", f.index, f.message);
            println!("  shrunk: {}", f.sample);
            println!("VIOLATION property={} replay={}", id, p.display());
        }
        reports.push(r);
    }
    write_evidence(id, if thorough { "thorough" } else { "quick" }, seed, &reports, t0.elapsed().as_secs_f64());
    i32::from(bad > 0)
}

#[cfg(feature = "cov")]
fn fuzz(id: &str, only: Option<&str>, secs: u64) -> i32 {
    let seed = env_u64("VERIF_SEED", 1);
    let threads = env_u64("IRPBT_THREADS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8)) as usize;
    let todo: Vec<Law> = laws::all()
        .into_iter()
        .filter(|l| l.prop == id && only.map(|o| l.name == o).unwrap_or(true))
        .filter(|l| matches!(l.kind, Kind::Random(..)) && !cov::UNFIT.contains(&l.name))
        .collect();
    start_watchdog(on_hang);
    let mut notes = vec![];
    let mut bad = 0;
    let each = std::time::Duration::from_millis(secs * 1000 / todo.len().max(1) as u64);
    for law in &todo {
        let r = cov::fuzz_law(law, seed, threads, each);
        println!(
            "{} {:<28} guided cases {:>9} nontrivial {:>9} kept {:>6} edges {:>6} features {:>7} {:>7.2}s {}",
            law.prop,
            law.name,
            r.cases,
            r.nontrivial,
            r.corpus,
            r.edges,
            r.features,
            r.wall,
            if r.failure.is_some() { "FAIL" } else { "ok" }
        );
        if let Some(f) = &r.failure {
            bad += 1;
            let p = write_replay(law, seed, 0, &f.shrunk, &f.original, &f.message, &f.sample);
            println!("  {}", f.message);
            println!("  shrunk: {}", f.sample);
            println!("VIOLATION property={} replay={}", id, p.display());
        }
        notes.push(format!(
            "{{\"law\":{},\"cases\":{},\"nontrivial\":{},\"kept\":{},\"edges\":{},\"features\":{},\"wall_s\":{:.3},\"violation\":{},\"samples\":[{}]}}",
            jstr(law.name),
            r.cases,
            r.nontrivial,
            r.corpus,
            r.edges,
            r.features,
            r.wall,
            r.failure.as_ref().map(|f| jstr(&f.message)).unwrap_or_else(|| "null".into()),
            r.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
        ));
    }
    let _ = std::fs::write(fuzz_notes(id), notes.join(",\n"));
    i32::from(bad > 0)
}

fn field(s: &str, k: &str) -> Option<String> {
    let pat = format!("\"{}\":", k);
    let i = s.find(&pat)? + pat.len();
    let rest = &s[i..];
    if let Some(r) = rest.strip_prefix('"') {
        return Some(r[..r.find('"')?].to_string());
    }
    if let Some(r) = rest.strip_prefix('[') {
        return Some(r[..r.find(']')?].to_string());
    }
    let e = rest.find(|c: char| !c.is_ascii_digit()).unwrap_or(rest.len());
    Some(rest[..e].to_string())
}

fn replay(file: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {}", file);
        return 3;
    };
    let (Some(prop), Some(name), Some(choices)) = (field(&s, "property"), field(&s, "law"), field(&s, "choices")) else {
        eprintln!("not a replay file of irpbt");
        return 3;
    };
    let Some(law) = laws::all().into_iter().find(|l| l.prop == prop && l.name == name) else {
        eprintln!("unknown law {}/{}", prop, name);
        return 3;
    };
    start_watchdog(on_hang);
    let v: Vec<u64> = choices.split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let number = |k| field(&s, k).and_then(|x| x.parse::<u64>().ok());
    let (r, sample) = if number("index") == Some(u64::MAX) {
        run_mutant(&law, &v, number("seed").unwrap_or(1))
    } else if v.is_empty() && field(&s, "original").map(|o| o.is_empty()).unwrap_or(true) {
        let (seed, idx) = (number("seed").unwrap_or(1), number("index").unwrap_or(0));
        let mut out = (Ok(()), String::new());
        for i in idx..idx + 64 {
            let (r, _, s) = run_index(&law, seed, i);
            out = (r, s);
            if out.0.is_err() {
                break;
            }
        }
        out
    } else {
        run_choices(&law, &v)
    };
    println!("case: {}", sample);
    match r {
        Ok(()) => {
            println!("{}/{}: holds on this case", prop, name);
            0
        }
        Err(m) => {
            println!("{}/{}: {}", prop, name, m);
            println!("VIOLATION property={} replay={}", prop, file);
            1
        }
    }
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let code = match s.as_slice() {
        ["run", id] => run(id, None),
        ["run", id, law] => run(id, Some(law)),
        #[cfg(feature = "cov")]
        ["fuzz", id, secs] => fuzz(id, None, secs.parse().unwrap_or(60)),
        #[cfg(feature = "cov")]
        ["fuzz", id, law, secs] => fuzz(id, Some(law), secs.parse().unwrap_or(60)),
        ["replay", f] => replay(f),
        ["list"] => {
            for l in laws::all() {
                println!("{} {}", l.prop, l.name);
            }
            0
        }
        _ => {
            eprintln!("usage: irpbt run <ID> [law] | replay <file> | list");
            3
        }
    };
    std::process::exit(code);
}
