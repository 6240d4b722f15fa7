//! Drives a property with proptest (seeded, 8 workers), shrinks failures, writes replay and evidence files.
use crate::dict::{self, Dict};
use crate::host::{mix, TestClock, TestHost};
use crate::tape::Case;
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRunner};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type RunFn = fn(&Case, &mut Ctx) -> Result<(), String>;

pub struct Part {
    pub name: &'static str,
    /// words in the fixed header and maximal length of the operation list
    pub nh: usize,
    pub max_ops: usize,
    pub quick: u64,
    pub thorough: u64,
    pub run: RunFn,
    /// exhaustive parts: number of cases and the i-th one (quick/thorough are ignored)
    pub enumerate: Option<(fn(bool) -> u64, fn(u64) -> Case)>,
}

pub struct Prop {
    pub id: &'static str,
    pub parts: Vec<Part>,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub struct Ctx {
    pub h1: TestHost, pub c1: TestClock,
    pub h2: TestHost, pub c2: TestClock,
    pub h3: TestHost, pub c3: TestClock,
    pub nontrivial: bool,
    pub sig: Option<u64>,
    pub want: bool,
    pub desc: Option<String>,
    counting: bool,
    classes: BTreeMap<&'static str, u64>,
    pending: Vec<&'static str>,
}

impl Ctx {
    pub fn new() -> Self {
        Ctx {
            h1: TestHost::new(), c1: TestClock::new(), h2: TestHost::new(), c2: TestClock::new(), h3: TestHost::new(), c3: TestClock::new(),
            nontrivial: false, sig: None, want: false, desc: None, counting: true, classes: BTreeMap::new(), pending: Vec::new(),
        }
    }
    /// Counts the case under a label (once per call).
    #[inline] pub fn class(&mut self, n: &'static str) { self.pending.push(n); }
    #[inline] pub fn class_if(&mut self, c: bool, n: &'static str) { if c { self.pending.push(n); } }
    #[inline] pub fn describe<F: FnOnce() -> String>(&mut self, f: F) { if self.want { self.desc = Some(f()); } }
}

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

/// The case each worker is in: for the hang monitor and the handler of fatal signals.
struct Slot { case: AtomicPtr<Case>, n: AtomicU64, part: AtomicUsize }
const NSLOTS: usize = 16;
static SLOTS: [Slot; NSLOTS] = [const { Slot { case: AtomicPtr::new(std::ptr::null_mut()), n: AtomicU64::new(0), part: AtomicUsize::new(0) } }; NSLOTS];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
thread_local! { static SLOT: usize = NEXT_SLOT.fetch_add(1, Ordering::SeqCst) % NSLOTS; }
/// What the process is checking (property, names of its parts, tier, seed, whether a replay file exists already)
struct Doing { id: &'static str, parts: Vec<&'static str>, tier: &'static str, seed: u64, replay: Option<String>, rule: &'static str, t0: Instant }
static DOING: Mutex<Option<Doing>> = Mutex::new(None);
/// an interpreter may take a while
fn stuck(id: &str) -> Duration { Duration::from_secs(if id == "C26" { 300 } else { 40 }) }

pub fn guarded(run: RunFn, c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    ctx.nontrivial = false; ctx.sig = None; ctx.desc = None; ctx.pending.clear();
    let slot = SLOT.with(|s| &SLOTS[*s]);
    slot.part.store(PART.with(|p| p.get()), Ordering::Relaxed);
    slot.n.fetch_add(1, Ordering::Relaxed);
    slot.case.store(c as *const Case as *mut Case, Ordering::Release);
    let r = match std::panic::catch_unwind(AssertUnwindSafe(|| run(c, ctx))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    };
    slot.case.store(std::ptr::null_mut(), Ordering::Release);
    r
}
thread_local! { static PART: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }

/// Reports the case in a worker's slot as a violation (it never ended, or killed the process) and exits.
fn report_slot(slot: &Slot, what: &str) -> ! {
    let p = slot.case.load(Ordering::Acquire);
    let guard = DOING.try_lock();
    if let (false, Ok(Some(d))) = (p.is_null(), guard.as_ref().map(|g| g.as_ref())) {
        // the worker is inside this very case (stuck, or stopped by the signal), so the case is alive
        let case = unsafe { (*p).clone() };
        let part = d.parts[slot.part.load(Ordering::Relaxed)];
        let path = match &d.replay { Some(p) => p.clone(), None => {
            let rd = root().join("replays");
            let _ = std::fs::create_dir_all(&rd);
            let path = rd.join(format!("{}.json", d.id));
            let doc = serde_json::json!({ "property": d.id, "part": part, "case": case, "message": what, "description": "", "seed": d.seed });
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
            let ev = serde_json::json!({
                "property": d.id, "tier": d.tier, "seed": d.seed, "level": "exploration",
                "coverage": { "evaluations": SLOTS.iter().map(|s| s.n.load(Ordering::Relaxed)).sum::<u64>(), "distinct_nontrivial": 0, "rule": d.rule, "samples": [format!("[{}] {}: {:x?}", part, what, case)], "stopped_in": part },
                "assumptions": [], "wall_s": d.t0.elapsed().as_secs_f64(), "violations": 1,
            });
            let _ = std::fs::write(root().join("evidence").join(format!("{}.json", d.id)), serde_json::to_string_pretty(&ev).unwrap());
            path.display().to_string()
        } };
        println!("{} [{}]: {}", d.id, part, what);
        println!("VIOLATION property={} replay={}", d.id, path);
        unsafe { libc::_exit(1) }
    }
    eprintln!("{} outside of any case", what);
    unsafe { libc::_exit(3) }
}

extern "C" fn on_signal(sig: libc::c_int) {
    // a second fault while reporting ends the process without a verdict
    unsafe { libc::signal(sig, libc::SIG_DFL); }
    let what = match sig { libc::SIGSEGV => "segmentation fault", libc::SIGBUS => "bus error", libc::SIGILL => "illegal instruction", libc::SIGFPE => "arithmetic fault", _ => "abort" };
    let slot = SLOT.with(|s| &SLOTS[*s]);
    report_slot(slot, &format!("the code under test ended the process: {}", what));
}

fn watch(d: Doing) {
    let stuck = stuck(d.id);
    *DOING.lock().unwrap() = Some(d);
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as *const () as usize;
            a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
    std::thread::spawn(move || {
        let mut seen = [(0u64, Instant::now()); NSLOTS];
        loop {
            std::thread::sleep(Duration::from_secs(2));
            for (s, last) in SLOTS.iter().zip(seen.iter_mut()) {
                let n = s.n.load(Ordering::Relaxed);
                if s.case.load(Ordering::Acquire).is_null() || last.0 != n { *last = (n, Instant::now()); }
                else if last.1.elapsed() > stuck { report_slot(s, &format!("still running after {} s", stuck.as_secs())); }
            }
        }
    });
}

fn case_hash(c: &Case) -> u64 {
    let mut x = 0x1234;
    for w in c.h.iter() { x = mix(x, *w); }
    x = mix(x, 0xFFFF);
    for w in c.ops.iter() { x = mix(x, *w); }
    x
}

#[derive(Default)]
struct Tally { evals: u64, sigs: Vec<u64>, classes: BTreeMap<&'static str, u64>, samples: Vec<String>, fail: Option<(Case, String, String)> }

impl Tally {
    fn note(&mut self, c: &Case, ctx: &mut Ctx, part: &'static str) {
        self.evals += 1;
        for p in ctx.pending.drain(..) { *ctx.classes.entry(p).or_insert(0) += 1; }
        if ctx.nontrivial {
            self.sigs.push(ctx.sig.unwrap_or_else(|| case_hash(c)));
            if self.sigs.len() & 0xFFFFF == 0 { self.sigs.sort_unstable(); self.sigs.dedup(); }
            if let Some(d) = ctx.desc.take() { if self.samples.len() < 2 { self.samples.push(format!("[{}] {}", part, d)); } }
        }
        ctx.want = self.samples.len() < 2 && self.evals % 97 == 5;
    }
}

fn run_random(part: &Part, cases: u64, seed: u64, dict: &'static Dict, stop: &AtomicBool) -> Tally {
    let mut tally = Tally::default();
    if cases == 0 { return tally; }
    let cell = RefCell::new((Ctx::new(), tally));
    cell.borrow_mut().0.want = true;
    let run_n = |n: u64, seed: u64| -> bool {
        let cfg = Config {
            cases: n as u32, failure_persistence: None, rng_seed: RngSeed::Fixed(seed), rng_algorithm: RngAlgorithm::XorShift, max_shrink_iters: 30_000,
            max_shrink_time: 60_000, source_file: None, ..Config::default()
        };
        let mut runner = TestRunner::new(cfg);
        let word = || any::<u64>().prop_map(|w| dict.apply(w));
        let strat = (proptest::collection::vec(word(), part.nh..=part.nh), proptest::collection::vec(word(), 0..=part.max_ops));
        let res = runner.run(&strat, |(h, ops)| {
            let mut b = cell.borrow_mut();
            let (ctx, tally) = &mut *b;
            if ctx.counting && stop.load(Ordering::Relaxed) { return Ok(()); }
            let case = Case { h, ops };
            let r = guarded(part.run, &case, ctx);
            if ctx.counting { tally.note(&case, ctx, part.name); }
            r.map_err(|m| { ctx.counting = false; TestCaseError::fail(m) })
        });
        match res {
            Ok(()) => true,
            Err(TestError::Fail(_, (h, ops))) => {
                let mut b = cell.borrow_mut();
                let (ctx, tally) = &mut *b;
                let case = Case { h, ops };
                ctx.want = true;
                let msg = guarded(part.run, &case, ctx).err().unwrap_or_else(|| "failure did not reproduce after shrinking".to_string());
                let d = ctx.desc.take().unwrap_or_default();
                tally.fail = Some((case, msg, d));
                false
            }
            Err(TestError::Abort(r)) => { eprintln!("proptest aborted: {}", r); std::process::exit(2) }
        }
    };
    // proptest counts cases in 32 bits and keeps no state between chunks
    let mut left = cases; let mut k = 0;
    while left > 0 {
        let n = left.min(1 << 24);
        if !run_n(n, mix(seed, k)) { stop.store(true, Ordering::Relaxed); break; }
        left -= n; k += 1;
    }
    let (ctx, t) = cell.into_inner();
    tally = t;
    tally.classes = ctx.classes;
    tally
}

fn run_enum(part: &Part, total: u64, get: fn(u64) -> Case, worker: u64, workers: u64, stop: &AtomicBool) -> Tally {
    let mut tally = Tally::default();
    let mut ctx = Ctx::new();
    ctx.want = true;
    let mut i = worker;
    while i < total {
        if stop.load(Ordering::Relaxed) { break; }
        let case = get(i);
        match guarded(part.run, &case, &mut ctx) {
            Ok(()) => tally.note(&case, &mut ctx, part.name),
            Err(_) => {
                ctx.want = true;
                let m = guarded(part.run, &case, &mut ctx).err().unwrap_or_else(|| "failure did not reproduce".to_string());
                let d = ctx.desc.take().unwrap_or_default();
                tally.fail = Some((case, m, d));
                stop.store(true, Ordering::Relaxed);
                break;
            }
        }
        i += workers;
    }
    tally.classes = ctx.classes;
    tally
}

pub const WORKERS: u64 = 8;

pub fn root() -> std::path::PathBuf { std::path::Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf() }

pub fn run_prop(p: &Prop, thorough: bool, seed: u64, scale: f64) -> i32 {
    let t0 = Instant::now();
    install_hook();
    let _ = std::fs::create_dir_all(root().join("evidence"));
    watch(Doing { id: p.id, parts: p.parts.iter().map(|q| q.name).collect(), tier: if thorough { "thorough" } else { "quick" }, seed, replay: None, rule: p.rule, t0 });
    let dict: &'static Dict = Box::leak(Box::new(dict::load()));
    let mut total = Tally::default();
    let mut exhaustive: Vec<String> = Vec::new();
    let mut per_part = serde_json::Map::new();
    let mut failed: Option<(&'static str, Case, String, String)> = None;
    for (pi, part) in p.parts.iter().enumerate() {
        let stop = AtomicBool::new(false);
        let tallies: Vec<Tally> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..WORKERS).map(|w| {
                let stop = &stop;
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || { PART.with(|p| p.set(pi)); match part.enumerate {
                    Some((count, get)) => run_enum(part, count(thorough), get, w, WORKERS, stop),
                    None => {
                        let n = ((if thorough { part.thorough } else { part.quick }) as f64 * scale) as u64;
                        run_random(part, (n + w) / WORKERS, mix(mix(seed, pi as u64 * 1000 + 17), w), dict, stop)
                    }
                } }).unwrap()
            }).collect();
            hs.into_iter().map(|h| h.join().expect("worker")).collect()
        });
        let mut evals = 0;
        for mut t in tallies {
            evals += t.evals;
            total.evals += t.evals;
            total.sigs.append(&mut t.sigs);
            for (k, v) in t.classes { *total.classes.entry(k).or_insert(0) += v; }
            if total.samples.len() < 12 { total.samples.extend(t.samples.into_iter().take(1)); }
            if failed.is_none() { if let Some((c, m, d)) = t.fail { failed = Some((part.name, c, m, d)); } }
        }
        total.sigs.sort_unstable(); total.sigs.dedup();
        per_part.insert(part.name.to_string(), serde_json::json!(evals));
        if part.enumerate.is_some() { exhaustive.push(part.name.to_string()); }
        if failed.is_some() { break; }
    }
    let mut cov = serde_json::json!({
        "evaluations": total.evals,
        "distinct_nontrivial": total.sigs.len(),
        "rule": p.rule,
        "samples": total.samples,
        "classes": total.classes,
        "cases_per_part": per_part,
        "exhaustive_parts": exhaustive,
        "dictionary": { "literals": dict.all.len(), "not_on_the_baseline": dict.new.len() },
    });
    if let Some((part, ..)) = &failed { cov["stopped_in"] = serde_json::json!(part); }
    let ev = serde_json::json!({
        "property": p.id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": cov, "assumptions": p.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": failed.is_some() as u32,
    });
    let dir = root().join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    if let Some((part, case, msg, desc)) = failed {
        let rd = root().join("replays");
        std::fs::create_dir_all(&rd).unwrap();
        let path = rd.join(format!("{}.json", p.id));
        let doc = serde_json::json!({ "property": p.id, "part": part, "case": case, "message": msg, "description": desc, "seed": seed });
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        println!("{} [{}]: {}", p.id, part, msg);
        println!("case: {}", desc);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    println!("{}: ok, {} cases, {} distinct non-trivial, {:.1}s", p.id, total.evals, total.sigs.len(), t0.elapsed().as_secs_f64());
    0
}

pub fn replay(props: &[Prop], path: &str) -> i32 {
    install_hook();
    let doc: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let id = doc["property"].as_str().unwrap();
    let part = doc["part"].as_str().unwrap();
    let case: Case = serde_json::from_value(doc["case"].clone()).unwrap();
    let p = props.iter().find(|p| p.id == id).expect("property");
    let pi = p.parts.iter().position(|q| q.name == part).expect("part");
    let part = &p.parts[pi];
    PART.with(|q| q.set(pi));
    watch(Doing { id: p.id, parts: p.parts.iter().map(|q| q.name).collect(), tier: "quick", seed: 0, replay: Some(path.to_string()), rule: p.rule, t0: Instant::now() });
    let mut ctx = Ctx::new();
    ctx.want = true;
    match guarded(part.run, &case, &mut ctx) {
        Ok(()) => { println!("{} [{}] holds on this case: {}", id, part.name, ctx.desc.unwrap_or_default()); 0 }
        Err(m) => {
            println!("{} [{}]: {}", id, part.name, m);
            println!("case: {}", ctx.desc.unwrap_or_default());
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
    }
}
