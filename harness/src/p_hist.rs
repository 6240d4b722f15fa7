//! C22 (histories against the reference model) and C03 (execution engines agree).
use crate::hist::*;
use crate::host::*;
use crate::model::{Model, Out};
use crate::p_instr::*;
use crate::runner::*;
use crate::state::*;
use crate::tape::*;
use crate::with_flavour;

/// Upper bound on clock calls in any one operation of a history (a hang becomes a failure instead of a timeout).
const BUDGET: u64 = 100_000;

fn run_hist<C: CpuX + Clone>(s: &Setup, ops: &[HOp], ctx: &mut Ctx) -> Result<(), String> {
    let mut cpu: C = make(s.fl, &s.st, s.q);
    let mut m = Model::new(s.fl, &s.st, s.q);
    ctx.h1.reset(s.cfg, true); ctx.h2.reset(s.cfg, true);
    ctx.c1.reset(s.t0, s.cont, true); ctx.c2.reset(s.t0, s.cont, true);
    ctx.c1.budget = BUDGET; ctx.c2.budget = BUDGET; ctx.h1.budget = BUDGET; ctx.h2.budget = BUDGET;
    for (n, op) in ops.iter().enumerate() {
        let st = m.state();
        if !allowed(op, &st) { continue; }
        clear_events(&mut ctx.h1, &mut ctx.c1); clear_events(&mut ctx.h2, &mut ctx.c2);
        let r2 = apply_model(op, &mut m, &mut ctx.h2, &mut ctx.c2);
        let r1 = apply(op, &mut cpu, &mut ctx.h1, &mut ctx.c1);
        if r1 != r2 { return Err(format!("op {} {:?} from {:x?}: result cpu {:?} reference {:?}", n, op, st, r1, r2)); }
        let (s1, s2) = (read_state(&cpu), m.state());
        if s1 != s2 { return Err(format!("op {} {:?} from {:x?}: cpu!=reference:{}", n, op, st, s1.diff(&s2))); }
        if let Some(d) = diff_trace(&ctx.h1, &ctx.c1, &ctx.h2, &ctx.c2) { return Err(format!("op {} {:?} from {:x?}: {}", n, op, st, d)); }
    }
    if let Some(a) = ctx.h1.mem_equal(&ctx.h2) { return Err(format!("memory differs at {:04x}", a)); }
    Ok(())
}

fn c22(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let s = setup(&mut t);
    let ops: Vec<HOp> = case.ops.iter().map(|w| hop(*w, &MIX_ALL)).collect();
    ctx.describe(|| format!("{:x?} ops {:x?}", s, ops));
    let r = { let t = &mut *ctx; with_flavour!(s.fl, run_hist, (&s, &ops, t)) };
    ctx.nontrivial = ctx.h1.fetches >= 5;
    let (acks, brks, ios) = (ctx.h1.acks, ctx.h1.brks, ctx.h1.ios);
    ctx.class_if(acks > 0, "interrupt acknowledged");
    ctx.class_if(brks > 0, "break requested");
    ctx.class_if(ios > 2, "I/O");
    ctx.class_if(ops.contains(&HOp::Nmi), "NMI requested");
    ctx.class_if(ops.iter().any(|o| matches!(o, HOp::Run(_))), "limited run");
    r
}

// ---------------------------------------------------------------- C03
#[derive(Debug, PartialEq, Eq, Clone)]
struct Trail { breaks: Vec<(Out, u64)>, st: State, q: State, hash: (u64, u64), t: u64, oks: bool }

/// Runs to the absolute time `limit` in the given way and reports everything observable.
fn drive<C: CpuX + Clone>(s: &Setup, limits: &[u64], by_step: bool, h: &mut TestHost, k: &mut TestClock) -> Result<(Trail, C), String> {
    let mut cpu: C = make(s.fl, &s.st, s.q);
    h.reset(s.cfg, false); k.reset(s.t0, s.cont, false);
    k.budget = BUDGET; h.budget = BUDGET;
    let mut breaks = Vec::new();
    let mut oks = true;
    for &lim in limits {
        let mut guard = 0;
        loop {
            guard += 1;
            if guard > 20_000 { return Err("no progress towards the limit".into()); }
            if by_step {
                if k.t >= lim { break; }
                let r = step(&mut cpu, h, k);
                if r != Out::Ok { breaks.push((r, k.t)); }
            } else {
                let before = k.t;
                let past = k.t >= lim;
                let was = if past { Some(read_state(&cpu)) } else { None };
                let r = out_of(cpu.execute_with_limit(h, k, lim));
                if let Some(w) = was {
                    if r != Out::Ok || k.t != before || read_state(&cpu) != w { return Err(format!("limit already reached, but the call had an effect: {:?} {}", r, w.diff(&read_state(&cpu)))); }
                }
                if r == Out::Ok { oks &= k.t >= lim; break; }
                breaks.push((r, k.t));
                if k.t == before { return Err(format!("break {:?} without progress", r)); }
            }
        }
    }
    let st = read_state(&cpu);
    let mut probe = cpu.clone();
    if st.pfx == 0 {
        // hidden flag-tracking state shows in SCF
        let (hh, kk) = (h.hash.get(), k.clone());
        exec(&mut probe, h, k, 0x37);
        h.hash.set(hh); *k = kk;
    }
    Ok((Trail { breaks, st, q: read_state(&probe), hash: (h.hash.get(), k.hash), t: k.t, oks }, cpu))
}

fn run_c03<C: CpuX + Clone>(s: &Setup, limits: &[u64], ctx: &mut Ctx) -> Result<(), String> {
    let total = *limits.iter().max().unwrap();
    let (a, mut ca) = drive::<C>(s, &[total], true, &mut ctx.h1, &mut ctx.c1)?;
    let (b, mut cb) = drive::<C>(s, &[total], false, &mut ctx.h2, &mut ctx.c2)?;
    let cmp = |x: &Trail, y: &Trail, what: &str| -> Result<(), String> {
        if !y.oks { return Err(format!("{}: Ok returned before the limit", what)); }
        if x.t != y.t { return Err(format!("{}: clock {} != {} breaks {:?} / {:?}", what, x.t, y.t, x.breaks, y.breaks)); }
        if x.st != y.st { return Err(format!("{}: state:{}", what, x.st.diff(&y.st))); }
        if x.breaks != y.breaks { return Err(format!("{}: breaks {:?} / {:?}", what, x.breaks, y.breaks)); }
        if x.hash != y.hash { return Err(format!("{}: bus/clock history differs", what)); }
        if x.q != y.q { return Err(format!("{}: hidden flag state differs", what)); }
        Ok(())
    };
    cmp(&a, &b, "stepping / one run")?;
    if let Some(x) = ctx.h1.mem_equal(&ctx.h2) { return Err(format!("stepping / one run: memory differs at {:04x}", x)); }
    let (c, mut cc) = drive::<C>(s, limits, false, &mut ctx.h3, &mut ctx.c3)?;
    cmp(&b, &c, "one run / split runs")?;
    if let Some(x) = ctx.h1.mem_equal(&ctx.h3) { return Err(format!("one run / split runs: memory differs at {:04x}", x)); }
    ca.norm_r(); cb.norm_r(); cc.norm_r();
    if ca != cb { return Err("stepping / one run: CPU instances compare unequal".into()); }
    if cb != cc { return Err("one run / split runs: CPU instances compare unequal".into()); }
    Ok(())
}

fn c03(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let s = setup(&mut t);
    let total = s.t0 + match t.w() { w if w & 3 == 0 => (w >> 2) % 60, w => (w >> 2) % 1500 };
    let mut limits: Vec<u64> = case.ops.iter().map(|w| s.t0 + if w & 7 == 0 { (w >> 3) % 30 } else { (w >> 3) % (total - s.t0 + 1) }).filter(|l| *l <= total).collect();
    limits.sort();
    limits.push(total);
    ctx.describe(|| format!("{:x?} limits {:?}", s, limits));
    let r = { let t = &mut *ctx; with_flavour!(s.fl, run_c03, (&s, &limits, t)) };
    let (f, acks, brks) = (ctx.h1.fetches, ctx.h1.acks, ctx.h1.brks);
    ctx.nontrivial = f >= 3 && limits.len() > 1;
    ctx.class_if(acks > 0, "interrupt acknowledged");
    ctx.class_if(acks > 0 && s.st.im == 0, "mode 0 start");
    ctx.class_if(brks > 0, "break requested");
    ctx.class_if(s.st.halt, "starts halted");
    ctx.class_if(s.st.ei, "starts after EI");
    ctx.class_if(s.st.pfx != 0, "starts after prefix");
    r
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C22",
            parts: vec![Part { name: "histories", nh: HIST_W, max_ops: 40, quick: 3_000_000, thorough: 60_000_000, run: c22, enumerate: None }],
            rule: "a case is (flavour, initial state, memory, host timing, interrupt line, sequence of up to 40 API operations); non-trivial: at least 5 opcodes fetched; distinct by generated words",
            assumptions: &["enable_interrupts()/halt() are not called while a prefix is pending or the CPU is halted/after EI respectively (execute_with_limit asserts this)", "is_irq is a level: a function of the time and of acknowledgements, not of how often it is polled"],
        },
        Prop {
            id: "C03",
            parts: vec![Part { name: "engines", nh: HIST_W + 1, max_ops: 12, quick: 4_000_000, thorough: 80_000_000, run: c03, enumerate: None }],
            rule: "a case is (program memory, entry state, interrupt schedule, break requests, timing, list of limits); non-trivial: at least 3 opcodes executed and at least one intermediate limit; distinct by generated words",
            assumptions: &["is_irq is a level: a function of the time and of acknowledgements, not of how often it is polled"],
        },
    ]
}
