//! C01 (results of every instruction) and C02 (machine cycle trace): single instructions against the reference model.
use crate::host::*;
use crate::model::{Model, Out};
use crate::runner::*;
use crate::state::*;
use crate::tape::*;
use crate::with_flavour;
use z80emu::host::BreakCause;
use z80emu::{Cpu, CpuDebug};

pub type Res = Result<(), BreakCause<u32, u32>>;
pub fn out_of(r: Res) -> Out {
    match r {
        Ok(()) => Out::Ok,
        Err(BreakCause::Halt) => Out::Halt,
        Err(BreakCause::WriteIo(b)) => Out::Wr(b),
        Err(BreakCause::Reti(b)) => Out::Reti(b),
    }
}
pub type NoDbg = fn(CpuDebug);

pub fn step<C: Cpu>(c: &mut C, h: &mut TestHost, k: &mut TestClock) -> Out { out_of(c.execute_next::<_, _, NoDbg>(h, k, None)) }
pub fn exec<C: Cpu>(c: &mut C, h: &mut TestHost, k: &mut TestClock, code: u8) -> Out { out_of(c.execute_instruction::<_, _, NoDbg>(h, k, None, code)) }

/// Compares the values (not the times) of memory writes and I/O.
fn diff_values(a: &TestHost, b: &TestHost) -> Option<String> {
    let f = |h: &TestHost| -> Vec<(BK, u16, u16)> { h.ev.borrow().iter().filter(|e| matches!(e.k, BK::Wr | BK::In | BK::Out)).map(|e| (e.k, e.addr, e.val)).collect() };
    let (x, y) = (f(a), f(b));
    if x != y { Some(format!("memory/I/O values: cpu {:x?} reference {:x?}", x, y)) } else { None }
}
pub fn diff_trace(h1: &TestHost, c1: &TestClock, h2: &TestHost, c2: &TestClock) -> Option<String> {
    if c1.ev != c2.ev { return Some(format!("machine cycles: cpu {:x?} reference {:x?}", c1.ev, c2.ev)); }
    if *h1.ev.borrow() != *h2.ev.borrow() { return Some(format!("bus accesses: cpu {:x?} reference {:x?}", h1.ev.borrow(), h2.ev.borrow())); }
    if c1.t != c2.t { return Some(format!("clock: cpu {} reference {}", c1.t, c2.t)); }
    None
}

#[derive(Clone, Debug)]
struct One { fl: Fl, st: State, q: bool, cfg: HostCfg, cont: Cont, code: Vec<u8>, t0: u64 }

fn run_one<C: CpuX>(o: &One, ctx: &mut Ctx, trace: bool) -> Result<(), String> {
    let mut cpu: C = make(o.fl, &o.st, o.q);
    let mut m = Model::new(o.fl, &o.st, o.q);
    ctx.h1.reset(o.cfg, true); ctx.h2.reset(o.cfg, true);
    ctx.c1.reset(o.t0, o.cont, trace); ctx.c2.reset(o.t0, o.cont, trace);
    for (i, b) in o.code.iter().enumerate() {
        let a = o.st.pc.wrapping_add(i as u16);
        ctx.h1.poke(a, *b); ctx.h2.poke(a, *b);
    }
    let nprefix = o.code.iter().take_while(|b| **b == 0xDD || **b == 0xFD).count();
    for n in 0..=nprefix {
        let before = m.state();
        let r1 = step(&mut cpu, &mut ctx.h1, &mut ctx.c1);
        let r2 = m.step(&mut ctx.h2, &mut ctx.c2);
        let (s1, s2) = (read_state(&cpu), m.state());
        if n == nprefix {
            let moved = State { pc: before.pc, r: before.r, ..s2 } != State { pfx: 0, ..before } || ctx.h2.nread.get() > 1 + nprefix as u64;
            ctx.nontrivial = moved;
        }
        if trace {
            if let Some(d) = diff_trace(&ctx.h1, &ctx.c1, &ctx.h2, &ctx.c2) { return Err(format!("step {}: {}", n, d)); }
        } else {
            if r1 != r2 { return Err(format!("step {}: result cpu {:?} reference {:?}", n, r1, r2)); }
            if s1 != s2 { return Err(format!("step {}: cpu!=reference:{}", n, s1.diff(&s2))); }
            if let Some(d) = diff_values(&ctx.h1, &ctx.h2) { return Err(format!("step {}: {}", n, d)); }
        }
    }
    if !trace {
        // the hidden part of the flag logic shows in SCF
        if !m.int_blocked() || m.ei {
            exec(&mut cpu, &mut ctx.h1, &mut ctx.c1, 0x37);
            m.exec(&mut ctx.h2, &mut ctx.c2, 0x37);
            let (s1, s2) = (read_state(&cpu), m.state());
            if s1 != s2 { return Err(format!("SCF after the instruction: cpu!=reference:{}", s1.diff(&s2))); }
        }
    } else if ctx.c1.cont.level == 0 {
        // flat clock: total is what the reference counts, already compared
    }
    Ok(())
}

fn decode_one(case: &Case) -> One {
    let mut t = Tape::new(&case.h);
    let code = opcode(&mut t);
    let fl = t.fl();
    let st0 = t.state();
    let mut cfg = t.hostcfg();
    let cont = t.cont();
    let m = t.w();
    let q = m & 1 != 0;
    cfg.brk_rate = if m & 6 == 6 { 2 } else { 0 };
    cfg.reti_rate = if m & 8 != 0 { 2 } else { 0 };
    // an interrupt would replace the instruction; acceptance has its own property. Keep the INT line (LD A,I looks
    // at it) but only let it be seen when the CPU does not accept interrupts at the boundary
    let mut st = st0;
    if m >> 4 & 3 != 0 { cfg.irq = Irq::Never }
    if cfg.irq != Irq::Never && st.iff1 { st.ei = true; }
    st.ei |= m >> 6 & 7 == 0;
    One { fl, st, q, cfg, cont, code, t0: if m >> 9 & 7 == 0 { 0 } else { m >> 32 } }
}
const ONE_W: usize = 2 + 1 + Tape::STATE_W + Tape::HOST_W + 1 + 1;

fn describe(o: &One) -> String {
    format!("{:?} code {:02x?} q={} irq={:?} cont={} state {:x?}", o.fl, o.code, o.q, o.cfg.irq, o.cont.level, o.st)
}

fn table_class(code: &[u8]) -> &'static str {
    match (code[0], code[1]) {
        (0xCB, _) => "table CB", (0xED, _) => "table ED",
        (0xDD | 0xFD, 0xCB) => "table DDCB/FDCB", (0xDD | 0xFD, 0xDD | 0xFD) => "prefix chain", (0xDD | 0xFD, 0xED) => "DD/FD ED",
        (0xDD | 0xFD, _) => "table DD/FD", _ => "table plain",
    }
}

fn c01(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let o = decode_one(case);
    ctx.class(table_class(&o.code));
    ctx.class_if(o.cfg.irq != Irq::Never, "INT line used");
    ctx.describe(|| describe(&o));
    let t = &mut *ctx;
    with_flavour!(o.fl, run_one, (&o, t, false))
}
fn c02(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let o = decode_one(case);
    ctx.class(table_class(&o.code));
    ctx.class_if(o.cont.level != 0, "contended clock");
    ctx.class_if(o.cfg.ws_rate != 0, "wait states");
    ctx.describe(|| describe(&o));
    let t = &mut *ctx;
    with_flavour!(o.fl, run_one, (&o, t, true))
}

// ---- machine cycles of interrupt acknowledges, halted CPUs and limited runs: up to three API calls from any state
const CYC: crate::hist::Mix = [3, 6, 2, 4, 3, 0, 0];
fn c02_calls(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    use crate::hist::*;
    let mut t = Tape::new(&case.h);
    let s = setup(&mut t);
    let ops: Vec<HOp> = case.ops.iter().map(|w| match hop(*w, &CYC) { HOp::Run(d) => HOp::Run(1 + d % 14), o => o }).collect();
    ctx.describe(|| format!("{:x?} ops {:x?}", s, ops));
    ctx.class_if(s.st.halt, "halted");
    ctx.class_if(ops.contains(&HOp::Irq), "interrupt requested");
    ctx.class_if(ops.contains(&HOp::Nmi), "NMI requested");
    let r = { let t = &mut *ctx; with_flavour!(s.fl, run_calls, (&s, &ops, t)) };
    ctx.nontrivial = ctx.c1.calls > 0;
    r
}
fn run_calls<C: CpuX>(s: &crate::hist::Setup, ops: &[crate::hist::HOp], ctx: &mut Ctx) -> Result<(), String> {
    use crate::hist::*;
    let mut cpu: C = make(s.fl, &s.st, s.q);
    let mut m = Model::new(s.fl, &s.st, s.q);
    ctx.h1.reset(s.cfg, true); ctx.h2.reset(s.cfg, true);
    ctx.c1.reset(s.t0, s.cont, true); ctx.c2.reset(s.t0, s.cont, true);
    ctx.c1.budget = 100_000; ctx.c2.budget = 100_000; ctx.h1.budget = 100_000; ctx.h2.budget = 100_000;
    for (n, op) in ops.iter().enumerate() {
        apply_model(op, &mut m, &mut ctx.h2, &mut ctx.c2);
        apply(op, &mut cpu, &mut ctx.h1, &mut ctx.c1);
        if let Some(d) = diff_trace(&ctx.h1, &ctx.c1, &ctx.h2, &ctx.c2) { return Err(format!("call {} {:?}: {}", n, op, d)); }
    }
    Ok(())
}

// ---- exhaustive: every 8-bit operation, operand pair and relevant flag input
fn alu_count(_: bool) -> u64 { 8 * 256 * 256 * 2 }
fn alu_get(i: u64) -> Case { Case { h: vec![i], ops: vec![] } }
fn alu_run(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let i = case.h[0];
    let (op, a, v, cf) = ((i >> 17) as u8 & 7, (i >> 9) as u8, (i >> 1) as u8, i as u8 & 1);
    let st = State { af: (a as u16) << 8 | if cf != 0 { 0xFF } else { 0xFE }, bc: 0x1234, hl: 0x5678, pc: 0x8000, ..State::default() };
    exhaustive_one(FLS[(i % 3) as usize], &st, vec![0xC6 | op << 3, v, 0, 0], ctx)
}
fn exhaustive_one(fl: Fl, st: &State, code: Vec<u8>, ctx: &mut Ctx) -> Result<(), String> {
    let o = One { fl, st: *st, q: true, cfg: HostCfg::default(), cont: Cont::default(), code, t0: 0 };
    ctx.describe(|| describe(&o));
    let r = { let t = &mut *ctx; with_flavour!(o.fl, run_one, (&o, t, false)) };
    ctx.nontrivial = true;
    r
}
/// accumulator operations on all A and F
const AOPS: [&[u8]; 16] = [&[0x27], &[0x2F], &[0x37], &[0x3F], &[0x07], &[0x0F], &[0x17], &[0x1F], &[0xED, 0x44], &[0x3C], &[0x3D], &[0x87], &[0x8F], &[0x9F], &[0xB7], &[0xBF]];
fn aop_count(_: bool) -> u64 { 16 * 65536 * 2 }
fn aop_run(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let i = case.h[0];
    let st = State { af: i as u16, pc: 0x8000, ..State::default() };
    let mut code = AOPS[(i >> 16) as usize & 15].to_vec();
    code.resize(4, 0);
    let q = i >> 20 & 1 != 0;
    let o = One { fl: FLS[(i % 3) as usize], st, q, cfg: HostCfg::default(), cont: Cont::default(), code, t0: 0 };
    ctx.describe(|| describe(&o));
    let r = { let t = &mut *ctx; with_flavour!(o.fl, run_one, (&o, t, false)) };
    ctx.nontrivial = true;
    r
}
/// CB operations on register and memory, all values, carry in/out
fn cb_count(_: bool) -> u64 { 256 * 256 * 2 * 2 }
fn cb_run(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let i = case.h[0];
    let (op, v, f, ind) = ((i >> 8) as u8, i as u8, if i >> 16 & 1 != 0 { 0xFFu16 } else { 0x00 }, i >> 17 & 1 != 0);
    let vv = (v as u16) << 8 | v as u16;
    let mut st = State { af: (v as u16) << 8 | f, bc: vv, de: vv, hl: vv, ix: 0x9000, wz: 0x2BD4 ^ vv, pc: 0x8000, ..State::default() };
    let mut code = vec![0xCB, op, 0, 0];
    if ind { code = vec![0xDD, 0xCB, 0x05, op]; st.ix = st.pc.wrapping_add(4).wrapping_sub(5); code.push(v); }
    else if op & 7 == 6 { st.hl = 0x8002; code[2] = v; }
    exhaustive_one(FLS[(i % 3) as usize], &st, code, ctx)
}
/// block input/output flags: data x B x low byte
fn bio_count(thorough: bool) -> u64 { if thorough { 4 << 24 } else { 4 << 19 } }
fn bio_get_quick(i: u64) -> Case { Case { h: vec![i], ops: vec![] } }
fn bio_run(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let i = case.h[0];
    let op = [0xA3u8, 0xAB, 0xB3, 0xBB][(i & 3) as usize];
    let j = i >> 2;
    // the quick tier takes every data byte with a pseudo-random subset of B and L
    let (data, b, l) = (j as u8, (mix(j >> 8, 3)) as u8, mix(j >> 8, 9) as u8);
    let (data, b, l) = if j >> 19 != 0 { (j as u8, (j >> 8) as u8, (j >> 16) as u8) } else { (data, b, l) };
    let hl = 0x4000 | l as u16;
    let st = State { af: 0, bc: (b as u16) << 8 | 0x10, hl, pc: 0x8000, ..State::default() };
    let o = One { fl: FLS[(i % 3) as usize], st, q: false, cfg: HostCfg::default(), cont: Cont::default(), code: vec![0xED, op, 0, 0], t0: 0 };
    ctx.describe(|| format!("data {:02x} {}", data, describe(&o)));
    let fl = o.fl;
    let t = &mut *ctx;
    let r = with_flavour!(fl, run_bio, (&o, t, hl, data));
    ctx.nontrivial = true;
    r
}
fn run_bio<C: CpuX>(o: &One, ctx: &mut Ctx, at: u16, data: u8) -> Result<(), String> {
    let mut cpu: C = make(o.fl, &o.st, o.q);
    let mut m = Model::new(o.fl, &o.st, o.q);
    ctx.h1.reset(o.cfg, true); ctx.h2.reset(o.cfg, true);
    ctx.c1.reset(0, o.cont, false); ctx.c2.reset(0, o.cont, false);
    for h in [&mut ctx.h1, &mut ctx.h2] { h.poke(o.st.pc, o.code[0]); h.poke(o.st.pc + 1, o.code[1]); h.poke(at, data); }
    step(&mut cpu, &mut ctx.h1, &mut ctx.c1);
    m.step(&mut ctx.h2, &mut ctx.c2);
    let (s1, s2) = (read_state(&cpu), m.state());
    if s1 != s2 { return Err(format!("cpu!=reference:{}", s1.diff(&s2))); }
    match diff_values(&ctx.h1, &ctx.h2) { Some(d) => Err(d), None => Ok(()) }
}

/// every encoding of every table with a few structured states: guarantees that no encoding is left out
fn enc_count(thorough: bool) -> u64 { TABLES * 256 * if thorough { 4096 } else { 256 } }
fn enc_get(i: u64) -> Case {
    let (table, op, n) = (i % TABLES, (i / TABLES) as u8, i / TABLES / 256);
    let mut h = vec![table << 8 | op as u64, mix(n, 1)];
    for k in 0..ONE_W as u64 { h.push(mix(n ^ mix(op as u64, table), 100 + k)); }
    Case { h, ops: vec![] }
}
fn enc_decode(case: &Case) -> One {
    let mut o = decode_one(&Case { h: [&[0u64, 0][..], &case.h[2..]].concat(), ops: vec![] });
    let (table, op) = (case.h[0] >> 8, case.h[0] as u8);
    o.code = encode(table, op, b8(case.h[1]), b8(case.h[1] >> 20), b8(case.h[1] >> 40));
    o
}
fn enc_c01(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let o = enc_decode(case);
    ctx.class(table_class(&o.code));
    ctx.describe(|| describe(&o));
    let t = &mut *ctx;
    with_flavour!(o.fl, run_one, (&o, t, false))
}
fn enc_c02(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let o = enc_decode(case);
    ctx.class(table_class(&o.code));
    ctx.describe(|| describe(&o));
    let t = &mut *ctx;
    with_flavour!(o.fl, run_one, (&o, t, true))
}

pub fn props() -> Vec<Prop> {
    let e = |name, run, count, get| Part { name, nh: 0, max_ops: 0, quick: 0, thorough: 0, run, enumerate: Some((count, get)) };
    vec![
        Prop {
            id: "C01",
            parts: vec![
                e("alu-exhaustive", alu_run, alu_count as fn(bool) -> u64, alu_get as fn(u64) -> Case),
                e("accumulator-exhaustive", aop_run, aop_count, alu_get),
                e("cb-exhaustive", cb_run, cb_count, alu_get),
                e("block-io-flags", bio_run, bio_count, bio_get_quick),
                e("every-encoding", enc_c01, enc_count, enc_get),
                Part { name: "random", nh: ONE_W, max_ops: 0, quick: 8_000_000, thorough: 400_000_000, run: c01, enumerate: None },
            ],
            rule: "a case is (encoding, operands, CPU state, memory, port data, flavour); non-trivial: the instruction changed more than PC and R or accessed the bus beyond its opcode fetch; distinct by generated words",
            assumptions: &["the reference model follows The Undocumented Z80 Documented; interrupted block instructions use its (pre-2018) flag rules, as z80emu does"],
        },
        Prop {
            id: "C02",
            parts: vec![
                e("every-encoding", enc_c02, enc_count, enc_get),
                Part { name: "random", nh: ONE_W, max_ops: 0, quick: 12_000_000, thorough: 400_000_000, run: c02, enumerate: None },
                Part { name: "calls", nh: crate::hist::HIST_W, max_ops: 3, quick: 4_000_000, thorough: 100_000_000, run: c02_calls, enumerate: None },
            ],
            rule: "a case is (encoding, operands, CPU state, contention and wait-state pattern, flavour); non-trivial: more machine cycles than the opcode fetch or more state changed than PC and R (in the calls part: the clock was used); distinct by generated words",
            assumptions: &["a 16-bit read is one Memory::read_mem16 call with the first cycle's timestamp, as the trait documents"],
        },
    ]
}
