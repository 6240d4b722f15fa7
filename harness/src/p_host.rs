//! C09 (breaks lose nothing), C10 (host timing changes time only), C23 (totality).
use crate::hist::*;
use crate::host::*;
use crate::model::Out;
use crate::p_instr::*;
use crate::runner::*;
use crate::state::*;
use crate::tape::*;
use crate::with_flavour;
use std::cell::Cell;
use std::num::{NonZeroU16, NonZeroU8};
use z80emu::host::TsCounter;
use z80emu::{Clock, Cpu, CpuDebug, Io, Memory, Z80Any};

const BUDGET: u64 = 100_000;

// ---------------------------------------------------------------- C09
/// The same operation, optionally through the debugger path.
fn apply_dbg<C: CpuX>(op: &HOp, dbg: bool, c: &mut C, h: &mut TestHost, k: &mut TestClock) -> OpRes {
    if dbg {
        let d = |_: CpuDebug| {};
        match op {
            HOp::Step => return OpRes::Out(out_of(c.execute_next(h, k, Some(d)))),
            HOp::Exec(code) => return OpRes::Out(out_of(c.execute_instruction(h, k, Some(d), *code))),
            HOp::Irq => return OpRes::Irq(c.irq(h, k, Some(d)).map(out_of)),
            _ => {}
        }
    }
    apply(op, c, h, k)
}

/// Runs up to the absolute limit over any number of breaks; each break must be one the host asked for.
fn run_over_breaks<C: CpuX>(c: &mut C, h: &mut TestHost, k: &mut TestClock, lim: u64) -> Result<u64, String> {
    let mut n = 0;
    loop {
        if k.t >= lim { return Ok(n); }
        let before = h.brk_log.len();
        let t0 = k.t;
        let r = out_of(c.execute_with_limit(h, k, lim));
        check_break(h, before, r)?;
        match r {
            Out::Ok => { if k.t < lim { return Err(format!("Ok at {} before the limit {}", k.t, lim)); } return Ok(n); }
            _ => { n += 1; if k.t == t0 { return Err(format!("{:?} without any progress", r)); } }
        }
    }
}

/// The result agrees with what the host asked for since `before`.
fn check_break(h: &TestHost, before: usize, r: Out) -> Result<(), String> {
    let new = &h.brk_log[before..];
    match (r, new) {
        (Out::Ok | Out::Halt, []) => {}
        (Out::Wr(v), [(BK::Out, w, _)]) | (Out::Reti(v), [(BK::Reti, w, _)]) if v == *w => {}
        _ => return Err(format!("returned {:x?} where the host asked for {:x?}", r, new)),
    }
    if let [(_, _, pos)] = new {
        if let Some(e) = h.ev.borrow()[*pos..].iter().find(|e| matches!(e.k, BK::Op | BK::IrqData | BK::Out | BK::In)) {
            return Err(format!("execution continued after the break request: {:x?}", e));
        }
    }
    Ok(())
}

fn run_c09<C: CpuX>(s: &Setup, ops: &[(HOp, bool)], ctx: &mut Ctx) -> Result<(), String> {
    let quiet = HostCfg { brk_rate: 0, reti_rate: 0, ..s.cfg };
    let mut a: C = make(s.fl, &s.st, s.q);
    let mut b: C = make(s.fl, &s.st, s.q);
    let Ctx { h1, c1, h2, c2, .. } = ctx;
    h1.reset(quiet, false); h2.reset(s.cfg, true);
    c1.reset(s.t0, s.cont, false); c2.reset(s.t0, s.cont, false);
    for h in [&mut *h1, &mut *h2] { h.budget = BUDGET; }
    c1.budget = BUDGET; c2.budget = BUDGET;
    for (n, (op, dbg)) in ops.iter().enumerate() {
        let st = read_state(&a);
        if !allowed(op, &st) { continue; }
        clear_events(h1, c1); clear_events(h2, c2);
        let at = |m: String| format!("op {} {:x?} dbg={} from {:x?}: {}", n, op, dbg, st, m);
        match op {
            HOp::Run(d) => {
                let lim = c1.t + d;
                run_over_breaks(&mut a, h1, c1, lim).map_err(|m| at(format!("without breaks: {}", m)))?;
                run_over_breaks(&mut b, h2, c2, lim).map_err(at)?;
            }
            _ => {
                let ra = apply(op, &mut a, h1, c1);
                let before = h2.brk_log.len();
                let rb = apply_dbg(op, *dbg, &mut b, h2, c2);
                let at = |m: String| format!("op {} {:x?} dbg={} from {:x?}: {}", n, op, dbg, st, m);
                if h2.brk_log.len() == before {
                    if ra != rb { return Err(at(format!("results differ: {:x?} / {:x?}", ra, rb))); }
                } else {
                    match (&ra, &rb) {
                        (OpRes::Out(Out::Ok), OpRes::Out(x)) | (OpRes::Irq(Some(Out::Ok)), OpRes::Irq(Some(x))) => check_break(h2, before, *x).map_err(at)?,
                        _ => return Err(at(format!("host asked for a break; results {:x?} / {:x?}", ra, rb))),
                    }
                }
            }
        }
        let (sa, sb) = (read_state(&a), read_state(&b));
        if sa != sb { return Err(format!("op {} {:x?} from {:x?}: state without breaks / with breaks:{}", n, op, st, sa.diff(&sb))); }
        if c1.t != c2.t || c1.hash != c2.hash { return Err(format!("op {} {:x?} from {:x?}: clock without breaks {} / with {}", n, op, st, c1.t, c2.t)); }
        if h1.hash.get() != h2.hash.get() { return Err(format!("op {} {:x?} from {:x?}: bus history differs from the run without breaks", n, op, st)); }
    }
    if let Some(x) = h1.mem_equal(h2) { return Err(format!("memory differs at {:04x}", x)); }
    if a != b { a.norm_r(); b.norm_r(); if a != b { return Err("CPU instances compare unequal at the end".into()); } }
    Ok(())
}

const OUTS: &[&[u8]] = &[&[0xD3, 0x10], &[0xED, 0x41], &[0xED, 0x49], &[0xED, 0x51], &[0xED, 0x59], &[0xED, 0x61], &[0xED, 0x69], &[0xED, 0x71], &[0xED, 0x79],
    &[0xED, 0xA3], &[0xED, 0xAB], &[0xED, 0xB3], &[0xED, 0xBB], &[0xED, 0x4D], &[0xED, 0x5D], &[0xED, 0x45], &[0xDD, 0xD3, 0x20], &[0xFD, 0xED, 0x79], &[0xDD, 0xED, 0xB3], &[0xDD, 0xED, 0x4D],
    &[0xFB, 0xD3, 0x01], &[0xFB, 0xED, 0x4D], &[0x06, 0x05, 0xED, 0xB3], &[0x06, 0x03, 0xED, 0xBB], &[0xFB, 0xED, 0xB3], &[0x76], &[0xFB], &[0xD3, 0xFE, 0xD3, 0xFE]];

fn c09(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let mut s = setup(&mut t);
    let w = t.w();
    s.cfg.brk_rate = [1, 1, 2, 3][w as usize & 3];
    s.cfg.reti_rate = [1, 1, 2, 0][(w >> 2) as usize & 3];
    if w >> 4 & 3 == 0 { s.cfg.irq_style = 2; }
    const MIX: Mix = [10, 5, 2, 2, 1, 4, 1];
    let ops: Vec<(HOp, bool)> = case.ops.iter().flat_map(|w| {
        let z = mix(*w, 99);
        if w & 3 == 0 {
            // an output form at PC, and then a step or a run over it
            let place = HOp::Place(OUTS[(w >> 2) as usize % OUTS.len()].to_vec());
            let go = if z & 1 == 0 { HOp::Step } else { HOp::Run((z >> 8) % 90) };
            vec![(place, false), (go, z & 2 != 0)]
        } else {
            let op = hop(w >> 2, &MIX);
            let op = match op { HOp::Exec(_) if z & 12 == 0 => HOp::Exec([0xD3, 0xED][(z >> 8) as usize & 1]), o => o };
            vec![(op, z & 2 != 0)]
        }
    }).collect();
    ctx.describe(|| format!("{:x?} ops {:x?}", s, ops));
    let r = { let t = &mut *ctx; with_flavour!(s.fl, run_c09, (&s, &ops, t)) };
    let (outs, retis) = (ctx.h2.brk_log.iter().filter(|b| b.0 == BK::Out).count(), ctx.h2.brk_log.iter().filter(|b| b.0 == BK::Reti).count());
    ctx.nontrivial = outs + retis > 0;
    ctx.class_if(outs > 0, "write break");
    ctx.class_if(retis > 0, "RETI break");
    ctx.class_if(outs + retis > 5, "more than 5 breaks");
    let acks = ctx.h2.acks;
    ctx.class_if(acks > 0, "interrupt acknowledged");
    ctx.class_if(ops.iter().any(|o| matches!(o.0, HOp::Run(_))) && outs + retis > 0, "history with limited runs");
    r
}

// ---------------------------------------------------------------- C10
fn check_waits(h: &TestHost, k: &TestClock) -> Result<u64, String> {
    let mut expect = vec![None; k.ev.len() + 1];
    let mut n = 0;
    for e in h.ev.borrow().iter() {
        if matches!(e.k, BK::In | BK::Out | BK::IrqData) && e.aux != 0 {
            n += 1;
            let s = e.ts.seq as usize;
            if s >= k.ev.len() { return Err(format!("{:x?} carries no timestamp of a cycle of this operation", e)); }
            expect[s + 1] = Some((e.addr, e.aux as u16));
        }
    }
    for i in 0..=k.ev.len() {
        let got = k.ev.get(i).filter(|e| e.k == CK::Wait).map(|e| (e.addr, e.n));
        if got != expect[i] { return Err(format!("wait states requested {:x?}, added {:x?} (cycle {} of {:x?})", expect[i], got, i, k.ev)); }
    }
    Ok(n)
}

fn run_c10<C: CpuX>(s: &Setup, pats: &[(u64, u64, Cont); 2], ops: &[HOp], ctx: &mut Ctx) -> Result<(), String> {
    let mut cpus: [C; 3] = [make(s.fl, &s.st, s.q), make(s.fl, &s.st, s.q), make(s.fl, &s.st, s.q)];
    let Ctx { h1, c1, h2, c2, h3, c3, .. } = ctx;
    h1.reset(HostCfg { ws_rate: 0, ..s.cfg }, true);
    h2.reset(HostCfg { ws_rate: pats[0].0, ws_seed: pats[0].1, ..s.cfg }, true);
    h3.reset(HostCfg { ws_rate: pats[1].0, ws_seed: pats[1].1, ..s.cfg }, true);
    c1.reset(s.t0, Cont::default(), true); c2.reset(s.t0, pats[0].2, true); c3.reset(s.t0, pats[1].2, true);
    for (n, op) in ops.iter().enumerate() {
        let st = read_state(&cpus[0]);
        if !allowed(op, &st) { continue; }
        let mut res = Vec::with_capacity(3);
        for (c, (h, k)) in cpus.iter_mut().zip([(&mut *h1, &mut *c1), (&mut *h2, &mut *c2), (&mut *h3, &mut *c3)]) {
            clear_events(h, k);
            k.budget = BUDGET; h.budget = BUDGET;
            res.push(apply(op, c, h, k));
        }
        let flat = read_state(&cpus[0]);
        let at = |m: String| format!("op {} {:x?} from {:x?}: {}", n, op, st, m);
        for (j, (h, k)) in [(&*h2, &*c2), (&*h3, &*c3)].into_iter().enumerate() {
            let sj = read_state(&cpus[j + 1]);
            if res[j + 1] != res[0] { return Err(at(format!("result {:?} / timing {}: {:?}", res[0], j, res[j + 1]))); }
            if sj != flat { return Err(at(format!("state flat / timing {}:{}", j, flat.diff(&sj)))); }
            let v = |h: &TestHost| -> Vec<(BK, u16, u16)> { h.ev.borrow().iter().map(|e| (e.k, e.addr, e.val)).collect() };
            let (x, y) = (v(h1), v(h));
            if x != y { return Err(at(format!("bus values flat {:x?} / timing {} {:x?}", x, j, y))); }
            let cyc = |k: &TestClock| -> Vec<(CK, u16, u16)> { k.ev.iter().filter(|e| e.k != CK::Wait).map(|e| (e.k, e.addr, e.n)).collect() };
            let (x, y) = (cyc(c1), cyc(k));
            if x != y { return Err(at(format!("machine cycles flat {:x?} / timing {} {:x?}", x, j, y))); }
            check_waits(h, k).map_err(at)?;
            if k.t != c1.t + k.added { return Err(at(format!("clock {} is not {} + {} added by the host", k.t, c1.t, k.added))); }
        }
        check_waits(h1, c1).map_err(at)?;
    }
    for (o, w) in [(&*h2, 0), (&*h3, 1)] { if let Some(x) = h1.mem_equal(o) { return Err(format!("memory flat / timing {} differs at {:04x}", w, x)); } }
    Ok(())
}

fn c10(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let mut s = setup(&mut t);
    let w = t.w();
    s.cfg.irq = match w & 3 { 0 => Irq::Never, 1 => Irq::Always, _ => Irq::ByFetch { period: 1 + (w >> 2) % 12 } };
    let pats = [(1 + (w >> 8) % 2, w >> 9, t.cont()), ((w >> 10) % 3, w >> 12, t.cont())];
    const MIX: Mix = [10, 3, 2, 2, 1, 8, 1];
    let ops: Vec<HOp> = case.ops.iter().map(|w| match hop(*w, &MIX) { HOp::Run(_) => HOp::Run(1), o => o }).collect();
    ctx.describe(|| format!("{:x?} timings {:x?} ops {:x?}", s, pats, ops));
    let r = { let t = &mut *ctx; with_flavour!(s.fl, run_c10, (&s, &pats, &ops, t)) };
    let (f, added, waits, acks) = (ctx.h1.fetches, ctx.c2.added + ctx.c3.added, ctx.c2.waits + ctx.c3.waits, ctx.h1.acks);
    ctx.nontrivial = f >= 3 && added > 0;
    ctx.class_if(waits > 0, "wait states");
    ctx.class_if(added > waits, "contention");
    ctx.class_if(acks > 0, "interrupt acknowledged");
    r
}

// ---------------------------------------------------------------- C23
/// A host whose every answer is arbitrary: memory is not even consistent between two reads.
struct Chaos { seed: u64, n: Cell<u64>, calls: Cell<u64>, fetches: u64, budget: u64, bias: u8, polls: Cell<u64>, fixed: bool, mem: [u8; 64], max_ws: u16 }
impl Chaos {
    fn draw(&self) -> u64 {
        self.n.set(self.n.get() + 1);
        mix(self.seed, self.n.get())
    }
    fn ws(&self, z: u64) -> Option<NonZeroU16> { NonZeroU16::new(if z & 0x300 == 0 { ((z >> 16) as u16).min(self.max_ws) } else { 0 }) }
    fn call(&self) {
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() > self.budget { panic!("more than {} bus accesses in one operation", self.budget); }
    }
    fn byte(&self, a: u16) -> u8 {
        if self.fixed { return self.mem[a as usize & 63]; }
        let z = self.draw();
        match self.bias {
            0 => (z >> 8) as u8,
            1 => [0xDD, 0xFD, 0xED, 0xCB, 0xFB, 0x76, 0xDD, 0xFD][(z >> 8) as usize & 7],
            2 => [0x18, 0xFE, 0xC3, 0x10, 0xE9, 0xC7, 0xED, 0xB0][(z >> 8) as usize & 7],
            _ => if z & 1 == 0 { 0xED } else { 0xA0 | (z >> 8) as u8 & 0x1F },
        }
    }
}

macro_rules! chaos_host {
    ($name:ident, $ts:ty) => {
        struct $name(Chaos);
        impl Memory for $name {
            type Timestamp = $ts;
            fn read_mem(&self, a: u16, _: $ts) -> u8 { self.0.call(); self.0.byte(a) }
            fn read_mem16(&self, a: u16, _: $ts) -> u16 { self.0.call(); u16::from_le_bytes([self.0.byte(a), self.0.byte(a.wrapping_add(1))]) }
            fn read_opcode(&mut self, pc: u16, _: u16, _: $ts) -> u8 { self.0.call(); self.0.fetches += 1; self.0.byte(pc) }
            fn write_mem(&mut self, a: u16, v: u8, _: $ts) { self.0.call(); self.0.mem[a as usize & 63] = v; }
            fn read_debug(&self, a: u16) -> u8 { self.0.byte(a) }
        }
        impl Io for $name {
            type Timestamp = $ts;
            type WrIoBreak = u32;
            type RetiBreak = u32;
            fn read_io(&mut self, _: u16, _: $ts) -> (u8, Option<NonZeroU16>) { self.0.call(); let z = self.0.draw(); (z as u8, self.0.ws(z)) }
            fn write_io(&mut self, _: u16, _: u8, _: $ts) -> (Option<u32>, Option<NonZeroU16>) {
                self.0.call();
                let z = self.0.draw();
                (if z & 3 == 0 { Some(z as u32) } else { None }, self.0.ws(z))
            }
            // a level: stays the same until the clock is used again
            fn is_irq(&mut self, _: $ts) -> bool { self.0.polls.set(self.0.polls.get() + 1); mix(self.0.seed ^ 0x77, self.0.n.get()) & 1 == 0 }
            fn irq_data(&mut self, _: u16, _: $ts) -> (u8, Option<NonZeroU16>) { self.0.call(); let z = self.0.draw(); (z as u8, self.0.ws(z)) }
            fn reti(&mut self, _: u16, _: $ts) -> Option<u32> { self.0.call(); let z = self.0.draw(); if z & 3 == 0 { Some(z as u32) } else { None } }
        }
    };
}
chaos_host!(ChaosA, u64);
chaos_host!(Chaos16, u16);
chaos_host!(Chaos32, i32);

/// A clock which may jump anywhere, in either direction, and answers limits arbitrarily.
struct ChaosClock { seed: u64, n: Cell<u64>, calls: u64, since_poll: Cell<u64>, mode: u8, reached: Cell<bool>, after_reached: u64 }
impl ChaosClock {
    fn tick(&mut self) -> u64 {
        self.calls += 1;
        self.n.set(self.n.get() + 1);
        self.since_poll.set(self.since_poll.get() + 1);
        if self.reached.get() { self.after_reached += 1; }
        if self.since_poll.get() > 200 { panic!("more than 200 machine cycles without looking at the limit"); }
        match self.mode { 0 => self.n.get(), 1 => u64::MAX - self.n.get(), _ => mix(self.seed, self.n.get()) }
    }
}
impl Clock for ChaosClock {
    type Limit = ();
    type Timestamp = u64;
    fn is_past_limit(&self, _: ()) -> bool {
        self.since_poll.set(0);
        self.n.set(self.n.get() + 1);
        let r = mix(self.seed ^ 0x99, self.n.get()) % 24 == 0;
        if r { self.reached.set(true); }
        r
    }
    fn add_irq(&mut self, _: u16) -> u64 { self.tick() }
    fn add_no_mreq(&mut self, _: u16, _: NonZeroU8) { self.tick(); }
    fn add_m1(&mut self, _: u16) -> u64 { self.tick() }
    fn add_mreq(&mut self, _: u16) -> u64 { self.tick() }
    fn add_io(&mut self, _: u16) -> u64 { self.tick() }
    fn add_wait_states(&mut self, _: u16, _: NonZeroU16) { self.tick(); }
    fn as_timestamp(&self) -> u64 { mix(self.seed, self.n.get()) }
}

fn chaos(t: &mut Tape) -> Chaos {
    let w = t.w();
    let mut mem = [0u8; 64];
    for (i, m) in mem.iter_mut().enumerate() { *m = (mix(w, i as u64) >> 20) as u8; }
    let bias = (w & 3) as u8;
    let fixed = w & 4 != 0;
    if fixed {
        // jump-to-self, prefix-only and block-repeat memories
        let fill: &[u8] = match w >> 3 & 7 { 0 => &[0xDD], 1 => &[0xFD], 2 => &[0xDD, 0xFD], 3 => &[0x18, 0xFE], 4 => &[0xC7], 5 => &[0xED, 0xB0], 6 => &[0xFB], _ => &[] };
        if !fill.is_empty() { for (i, m) in mem.iter_mut().enumerate() { *m = fill[i % fill.len()]; } }
    }
    Chaos { seed: w >> 8, n: Cell::new(0), calls: Cell::new(0), fetches: 0, budget: u64::MAX, bias, polls: Cell::new(0), fixed, mem, max_ws: u16::MAX }
}

/// Bus accesses and machine cycles of the longest instruction, interrupt acceptance included, with room to spare.
const STEP_CALLS: u64 = 24;

fn chaos_step<C: Cpu, H, K: Clock>(c: &mut C, h: &mut H, k: &mut K, w: u64) -> Option<bool>
where H: Memory<Timestamp = K::Timestamp> + Io<Timestamp = K::Timestamp, WrIoBreak = u32, RetiBreak = u32> {
    let v = w >> 8;
    let mut dummy = String::new();
    let dbg = |d: CpuDebug| {
        use std::fmt::Write;
        let _ = write!(dummy, "{} {:x} {:X} {:#x}", d, d, d, d);
    };
    match w & 15 {
        0..=4 => { let _ = c.execute_next::<_, _, NoDbg>(h, k, None); }
        5 | 6 => { let _ = c.execute_next(h, k, Some(dbg)); }
        7 => { let _ = c.execute_instruction::<_, _, NoDbg>(h, k, None, v as u8); }
        8 => { let _ = c.execute_instruction(h, k, Some(dbg), v as u8); }
        9 => return Some(c.irq::<_, _, NoDbg>(h, k, None).is_some()),
        10 => return Some(c.irq(h, k, Some(dbg)).is_some()),
        11 => return Some(c.nmi(h, k)),
        12 => { c.set_iffs(v & 1 != 0, v & 2 != 0); c.set_im(im_of((v >> 2) as u8 % 3)); return Some(false) }
        13 => { c.add_r(v as i32); c.inc_r(); return Some(false) }
        14 => { c.set_pc(b16(v)); c.set_sp(b16(v >> 24)); return Some(false) }
        _ => { c.restore_iff1(); c.ex_af_af(); c.exx(); return Some(false) }
    }
    None
}

/// Arbitrary responses; steps.
fn run_chaos<C: CpuX>(fl: Fl, st: &State, ch: Chaos, cs: u64, ops: &[u64], ctx: &mut Ctx) -> Result<(), String> {
    let mut c: C = make(fl, st, cs & 1 != 0);
    let mut h = ChaosA(ch);
    let mut k = ChaosClock { seed: cs >> 8, n: Cell::new(0), calls: 0, since_poll: Cell::new(0), mode: (cs >> 1) as u8 & 3, reached: Cell::new(false), after_reached: 0 };
    for (i, w) in ops.iter().enumerate() {
        h.0.calls.set(0); h.0.budget = STEP_CALLS; k.calls = 0; k.since_poll.set(0);
        let f0 = h.0.fetches;
        if w & 31 == 31 {
            let st = read_state(&c);
            if st.halt && (st.ei || st.pfx != 0) { continue; }
            h.0.budget = 200_000;
            k.reached.set(false); k.after_reached = 0;
            let r = out_of(c.execute_with_limit(&mut h, &mut k, ()));
            if k.reached.get() && k.after_reached != 0 { return Err(format!("op {} run: {} machine cycles after the limit was reported", i, k.after_reached)); }
            if r == Out::Ok && !k.reached.get() { return Err(format!("op {} run: Ok before the limit was reported", i)); }
        } else {
            let halted = c.is_halt();
            let acc = chaos_step(&mut c, &mut h, &mut k, *w);
            let f = h.0.fetches - f0;
            if f > 2 { return Err(format!("op {} ({}): {} opcode fetches in one step", i, w & 15, f)); }
            match acc {
                None | Some(true) => if k.calls == 0 && !(w & 15 == 7 || w & 15 == 8) { return Err(format!("op {} ({}): the clock was not advanced (halted {})", i, w & 15, halted)); },
                Some(false) => if k.calls != 0 { return Err(format!("op {} ({}): refused, but the clock was used", i, w & 15)); },
            }
            if k.calls > STEP_CALLS { return Err(format!("op {} ({}): {} machine cycles in one step", i, w & 15, k.calls)); }
        }
        let _ = read_state(&c);
    }
    ctx.nontrivial = h.0.fetches >= 3;
    Ok(())
}

/// Library clocks near their wrap-around; steps and runs to a limit.
fn run_wrap<C: CpuX>(fl: Fl, st: &State, ch: Chaos, cs: u64, ops: &[u64], ctx: &mut Ctx) -> Result<(), String> {
    let mut c: C = make(fl, st, cs & 1 != 0);
    macro_rules! go {
        ($host:ident, $t:ty, $bits:expr) => {{
            let mut h = $host(ch);
            let start = if cs & 2 != 0 { <$t>::MAX - ((cs >> 8) % 200) as $t } else { (cs >> 8) as $t };
            let mut k = TsCounter::<$t>::from(start);
            for (i, w) in ops.iter().enumerate() {
                h.0.calls.set(0); h.0.budget = STEP_CALLS;
                if w & 31 == 31 {
                    let st = read_state(&c);
                    if st.halt && (st.ei || st.pfx != 0) { continue; }
                    // a limit the counter cannot jump over: wait states are not larger than the room left
                    let t = k.as_timestamp();
                    let lim = if t > <$t>::MAX / 2 { t } else { t + ((w >> 8) % 300) as $t };
                    h.0.budget = 3000; h.0.max_ws = 1000;
                    let r = out_of(c.execute_with_limit(&mut h, &mut k, lim));
                    if r == Out::Ok && k.as_timestamp() < lim && k.as_timestamp() >= t { return Err(format!("op {} run: Ok at {} before the limit {}", i, k.as_timestamp(), lim)); }
                } else {
                    h.0.max_ws = u16::MAX;
                    let t = k.as_timestamp();
                    let n0 = h.0.n.get();
                    let acc = chaos_step(&mut c, &mut h, &mut k, *w);
                    let d = k.as_timestamp().wrapping_sub(t);
                    let ok = match acc {
                        // an injected DD/FD prefix byte has been read by the caller
                        None | Some(true) => d != 0 || w & 15 == 7 || w & 15 == 8 || h.0.n.get() != n0,
                        Some(false) => d == 0,
                    };
                    if !ok { return Err(format!("op {} ({}): clock went from {} to {}", i, w & 15, t, k.as_timestamp())); }
                }
            }
            ctx.nontrivial = h.0.fetches >= 3;
            ctx.class_if(k.as_timestamp() < start, "clock wrapped");
        }};
    }
    if cs & 4 == 0 { go!(Chaos16, u16, 16) } else { go!(Chaos32, i32, 32) }
    Ok(())
}

fn chaos_case(case: &Case) -> (Fl, bool, State, Chaos, u64) {
    let mut t = Tape::new(&case.h);
    let fl = t.fl();
    let mut st = t.state();
    let ch = chaos(&mut t);
    let cs = t.w();
    let m = t.w();
    match m & 7 { 0 => st.ei = true, 1 => st.pfx = 0xDD, 2 => st.pfx = 0xFD, 3 => st.halt = true, _ => {} }
    (fl, m & 8 != 0, st, ch, cs)
}
const CHAOS_W: usize = 1 + Tape::STATE_W + 3;

fn c23(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let (fl, any, st, ch, cs) = chaos_case(case);
    ctx.describe(|| format!("{:?} any={} state {:x?} memory mode {} fixed {} clock {:x} {} ops", fl, any, st, ch.bias, ch.fixed, cs, case.ops.len()));
    ctx.class_if(ch.fixed, "consistent memory");
    if any { run_chaos::<Z80Any>(fl, &st, ch, cs, &case.ops, ctx) } else { with_flavour!(fl, run_chaos, (fl, &st, ch, cs, &case.ops, ctx)) }
}
fn c23w(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let (fl, any, st, ch, cs) = chaos_case(case);
    ctx.describe(|| format!("{:?} any={} state {:x?} memory mode {} fixed {} clock {:x} {} ops", fl, any, st, ch.bias, ch.fixed, cs, case.ops.len()));
    if any { run_wrap::<Z80Any>(fl, &st, ch, cs, &case.ops, ctx) } else { with_flavour!(fl, run_wrap, (fl, &st, ch, cs, &case.ops, ctx)) }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            parts: vec![Part { name: "breaks", nh: HIST_W + 1, max_ops: 30, quick: 4_000_000, thorough: 100_000_000, run: c09, enumerate: None }],
            rule: "a case is (flavour, state, memory, host timing, interrupt line, which outputs and RETIs ask for a break, up to 30 operations, many of them placing an output instruction at PC); non-trivial: at least one break was requested; distinct by generated words",
            assumptions: &["is_irq is a level: a function of the time and of acknowledgements, not of how often it is polled"],
        },
        Prop {
            id: "C10",
            parts: vec![Part { name: "timings", nh: HIST_W + 3, max_ops: 30, quick: 4_000_000, thorough: 60_000_000, run: c10, enumerate: None }],
            rule: "a case is a history of up to 30 operations run under a flat clock and two contention/wait-state patterns; non-trivial: at least 3 opcodes fetched and the host added time; distinct by generated words",
            assumptions: &["the data the host returns and its INT line do not depend on time"],
        },
        Prop {
            id: "C23",
            parts: vec![
                Part { name: "arbitrary host", nh: CHAOS_W, max_ops: 40, quick: 2_000_000, thorough: 150_000_000, run: c23, enumerate: None },
                Part { name: "wrapping clocks", nh: CHAOS_W, max_ops: 40, quick: 2_000_000, thorough: 150_000_000, run: c23w, enumerate: None },
            ],
            rule: "a case is a CPU state and up to 40 operations against a host returning arbitrary (even inconsistent) bytes, breaks, wait states, INT levels and clock values; built with overflow checks and debug assertions; non-trivial: at least 3 opcodes fetched; distinct by generated words",
            assumptions: &["execute_with_limit is not called on a CPU halted through halt() with a pending prefix or EI (it asserts this)", "limits given to a wrapping counter lie below its wrap-around"],
        },
    ]
}
