//! C26: every build configuration of the crate behaves the same, and executes without undefined behaviour.
//! ../probe is built several times; generated cases are fed to all of the builds and what they print is compared.
use crate::runner::*;
use crate::tape::Case;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::OnceLock;

struct Config { name: &'static str, features: &'static str, profile: &'static str }
const CONFIGS: [Config; 5] = [
    Config { name: "release build, std and serde", features: "z-std,z-serde", profile: "release" },
    Config { name: "debug build (checked, not optimised), no features", features: "", profile: "dev" },
    Config { name: "release build, no features", features: "", profile: "release" },
    Config { name: "build for size with LTO, std", features: "z-std", profile: "small" },
    Config { name: "release build, serde without std", features: "z-serde", profile: "release" },
];
const REF: usize = 0;
const DEBUG: usize = 1;
const MIRI: usize = CONFIGS.len();
/// The combination listed in known_findings.txt.
const SERDE_ALONE: usize = 4;
const SERDE_ALONE_FINDING: &str = "the crate does not compile with the feature serde and without the feature std";

/// For each configuration: the program to start, or the compiler's message; then the same for Miri
static BUILT: OnceLock<Vec<Result<String, String>>> = OnceLock::new();

fn target(i: usize) -> String { root().join("target").join(format!("probe{}", i)).display().to_string() }

fn build(i: usize) -> Result<String, String> {
    let c = &CONFIGS[i];
    let o = Command::new("cargo").args(["build", "--offline", "--quiet", "--features", c.features, "--profile", c.profile, "--target-dir", &target(i)])
        .current_dir(root().join("probe")).output().map_err(|e| e.to_string())?;
    if !o.status.success() { return Err(String::from_utf8_lossy(&o.stderr).into_owned()); }
    Ok(format!("{}/{}/probe", target(i), if c.profile == "dev" { "debug" } else { c.profile }))
}

fn miri() -> Command {
    let mut c = Command::new("cargo");
    c.args(["+nightly", "miri", "run", "--offline", "--quiet", "--target-dir", &target(MIRI)])
        .env("MIRIFLAGS", "-Zmiri-disable-isolation").current_dir(root().join("probe"));
    c
}

/// Builds all of the configurations; what went wrong outside of the code under test is an error of the check.
pub fn prepare() -> Result<(), String> {
    let r: Vec<Result<String, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..=CONFIGS.len()).map(|i| s.spawn(move || {
            if i < CONFIGS.len() { return build(i); }
            // an empty input: builds and ends
            match miri().stdin(Stdio::null()).output() {
                Ok(o) if o.status.success() => Ok(String::new()),
                Ok(o) => Err(String::from_utf8_lossy(&o.stderr).into_owned()),
                Err(e) => Err(e.to_string()),
            }
        })).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    if let Err(e) = &r[REF] { return Err(format!("the probe does not build: {}", e)); }
    if let Err(e) = &r[MIRI] { println!("C26: Miri is not available here, its part is left out: {}", e.lines().last().unwrap_or("")); }
    let known = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    if r[SERDE_ALONE].is_err() && known.lines().any(|l| l.starts_with("known: property=C26") && l.contains(SERDE_ALONE_FINDING)) {
        println!("KNOWN-FINDING: property=C26 {}", SERDE_ALONE_FINDING);
    }
    let _ = BUILT.set(r);
    Ok(())
}

struct Probe { child: Child, to: ChildStdin, from: BufReader<ChildStdout> }
thread_local! { static PROBES: RefCell<[Option<Probe>; MIRI + 1]> = const { RefCell::new([const { None }; MIRI + 1]) }; }

fn name(i: usize) -> &'static str { if i == MIRI { "Miri" } else { CONFIGS[i].name } }

fn ask(i: usize, full: bool, c: &Case) -> Result<String, String> {
    PROBES.with(|p| {
        let slot = &mut p.borrow_mut()[i];
        if slot.is_none() {
            let mut cmd = if i == MIRI { miri() } else { Command::new(BUILT.get().expect("prepared")[i].as_ref().expect("built")) };
            let err = if i == MIRI { Stdio::piped() } else { Stdio::null() };
            let mut child = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(err).spawn().map_err(|e| format!("cannot start {}: {}", name(i), e))?;
            let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
            *slot = Some(Probe { child, to, from });
        }
        let pr = slot.as_mut().unwrap();
        let mut line = String::from(if full { "1" } else { "0" });
        for w in c.h.iter().chain(&c.ops) { line.push_str(&format!(" {:x}", w)); }
        line.push('\n');
        let mut got = String::new();
        let sent = pr.to.write_all(line.as_bytes()).and_then(|_| pr.to.flush());
        if sent.is_ok() && pr.from.read_line(&mut got).is_ok() && got.ends_with('\n') { got.pop(); return Ok(got); }
        let mut pr = slot.take().unwrap();
        let mut err = String::new();
        if let Some(e) = pr.child.stderr.as_mut() { let _ = std::io::Read::read_to_string(e, &mut err); }
        let st = pr.child.wait().map_or("?".to_string(), |s| s.to_string());
        let why: Vec<&str> = err.lines().filter(|l| l.starts_with("error") || l.trim_start().starts_with("--> /")).take(2).collect();
        Err(format!("{}: the program ended ({}) {}", name(i), st, why.join(" ")))
    })
}

fn compare(i: usize, c: &Case, want: &str) -> Result<(), String> {
    let got = ask(i, false, c)?;
    if got == want { return Ok(()); }
    let (a, b) = (ask(REF, true, c)?, ask(i, true, c)?);
    let d = a.split('\u{1}').zip(b.split('\u{1}')).enumerate().find(|(_, (x, y))| x != y);
    match d {
        Some((n, (x, y))) => Err(format!("line {} of the observations differs: {}: `{}`, {}: `{}`", n, name(REF), x, name(i), y)),
        None => Err(format!("{} and {} observe differently ({} and {}; {} and {} bytes of text)", name(REF), name(i), want, got, a.len(), b.len())),
    }
}

fn observed(r: &str, ctx: &mut Ctx, c: &Case) -> Result<(), String> {
    let n: u64 = r.rsplit(' ').next().and_then(|n| n.parse().ok()).ok_or_else(|| format!("unexpected answer {}", r))?;
    ctx.nontrivial = n >= 60;
    ctx.class_if(n >= 300, "long (300 observed values)");
    if ctx.want && ctx.nontrivial {
        let full = ask(REF, true, c)?;
        ctx.desc = Some(full.split('\u{1}').filter(|l| !l.starts_with("clock")).take(6).collect::<Vec<_>>().join(" | ").chars().take(700).collect());
    }
    Ok(())
}

fn run_builds(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let want = ask(REF, false, c)?;
    observed(&want, ctx, c)?;
    for i in 1..CONFIGS.len() {
        // the debug build is slow
        if i == DEBUG && c.h[0] >> 60 & 3 != 0 { continue; }
        if BUILT.get().unwrap()[i].is_err() { continue; }
        compare(i, c, &want)?;
        if i == DEBUG { ctx.class("compared with the debug build"); }
    }
    Ok(())
}

fn run_miri(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    if BUILT.get().unwrap()[MIRI].is_err() { ctx.class("Miri not available"); return Ok(()); }
    let want = ask(REF, false, c)?;
    observed(&want, ctx, c)?;
    ctx.class("interpreted by Miri");
    compare(MIRI, c, &want)
}

/// One case per combination of features and profile: it compiles, or is a known finding.
fn run_combination(c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let i = c.h[0] as usize % CONFIGS.len();
    ctx.nontrivial = true;
    ctx.describe(|| format!("{}: features [{}], profile {}", CONFIGS[i].name, CONFIGS[i].features, CONFIGS[i].profile));
    match &BUILT.get().unwrap()[i] {
        Ok(_) => Ok(()),
        Err(e) => {
            let known = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
            if i == SERDE_ALONE && known.lines().any(|l| l.starts_with("known: property=C26") && l.contains(SERDE_ALONE_FINDING)) { ctx.class("known finding"); return Ok(()); }
            Err(format!("{}: does not compile: {}", CONFIGS[i].name, e.lines().filter(|l| l.starts_with("error")).take(3).collect::<Vec<_>>().join(" ")))
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        rule: "a case counts when at least 60 values (registers, clock, bus hashes, texts) were observed and compared; for the combinations, always",
        assumptions: &["the probe observes through the public API; serde's own output is left to C13 and C14", "x86-64 only; Miri checks the paths its sampled cases execute", "where cargo miri cannot run offline its part is left out, which the output says"],
        parts: vec![
            Part { name: "combinations", nh: 1, max_ops: 0, quick: 0, thorough: 0, run: run_combination, enumerate: Some((|_| CONFIGS.len() as u64, |i| Case { h: vec![i], ops: vec![] })) },
            Part { name: "builds", nh: 20, max_ops: 140, quick: 200_000, thorough: 6_000_000, run: run_builds, enumerate: None },
            Part { name: "miri", nh: 20, max_ops: 24, quick: 150, thorough: 6_000, run: run_miri, enumerate: None },
        ],
    }]
}
