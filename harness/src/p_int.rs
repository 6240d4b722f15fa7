//! C05-C08 (interrupts, NMI, HALT, shadows) and C18 (R).
use crate::hist::*;
use crate::host::*;
use crate::model::Out;
use crate::monitor::*;
use crate::p_instr::*;
use crate::runner::*;
use crate::state::*;
use crate::tape::*;
use crate::with_flavour;
use std::num::NonZeroU8;
use z80emu::{Clock, Io, Memory};

const BUDGET: u64 = 100_000;

/// Which aspects a property asserts on the shared history monitor.
#[derive(Clone, Copy, PartialEq)]
enum Aspect { Irq, Nmi, Halt, Shadow, R }

fn ok_of(r: &OpRes) -> bool { match r { OpRes::Irq(x) => x.is_some(), OpRes::Nmi(x) => *x, _ => true } }

fn run_monitored<C: CpuX + Clone>(s: &Setup, ops: &[HOp], aspect: Aspect, ctx: &mut Ctx) -> Result<(), String> {
    let mut cpu: C = make(s.fl, &s.st, s.q);
    let mut mon = Monitor::new(&s.st);
    let Ctx { h1, c1, .. } = ctx;
    h1.reset(s.cfg, true); c1.reset(s.t0, s.cont, true);
    h1.budget = BUDGET; c1.budget = BUDGET;
    for (n, op) in ops.iter().enumerate() {
        let before = read_state(&cpu);
        if !allowed(op, &before) { continue; }
        clear_events(h1, c1);
        let t0 = c1.t;
        mon.m1s = 0;
        let res = apply(op, &mut cpu, h1, c1);
        let now = read_state(&cpu);
        let at = |m: String| format!("op {} {:?} from {:x?}: {}", n, op, before, m);
        let bev = h1.ev.borrow();
        // every aspect relies on the trace being consistent with the rules; acceptance errors are what C05/C06/C08 assert
        let follow = mon.op(op, ok_of(&res), &s.cfg, t0, &c1.ev, &bev);
        match (&follow, aspect) {
            (Err(m), Aspect::Irq | Aspect::Nmi | Aspect::Shadow) => return Err(at(m.clone())),
            (Err(m), Aspect::Halt) if m.contains("halted") => return Err(at(m.clone())),
            (Err(_), _) => return Ok(()), // another property's concern; this history cannot be followed further
            _ => {}
        }
        match aspect {
            Aspect::Irq => {
                if mon.n_ack > 0 && (now.iff1, now.iff2) != (mon.iff1, mon.iff2) { return Err(at(format!("flip-flops {:?} expected {:?}", (now.iff1, now.iff2), (mon.iff1, mon.iff2)))); }
            }
            Aspect::Nmi => {
                if let (HOp::Nmi, OpRes::Nmi(acc)) = (op, &res) {
                    if !acc { if now != before { return Err(at(format!("refused NMI changed:{}", now.diff(&before)))); } }
                    else {
                        let ret = if before.halt { before.pc.wrapping_add(1) } else { before.pc };
                        let exp = State { pc: 0x66, sp: before.sp.wrapping_sub(2), iff1: false, halt: false, ei: false, r: bump(before.r), ..before };
                        if now != exp { return Err(at(format!("after NMI:{}", now.diff(&exp)))); }
                        let w: Vec<(u16, u16)> = bev.iter().filter(|e| e.k == BK::Wr).map(|e| (e.addr, e.val)).collect();
                        if w != vec![(before.sp.wrapping_sub(1), ret >> 8), (before.sp.wrapping_sub(2), ret & 255)] { return Err(at(format!("NMI pushed {:x?}", w))); }
                    }
                }
                if mon.op_instr == 1 && mon.last == 0xED && [0x45, 0x55, 0x65, 0x75, 0x5D, 0x6D, 0x7D, 0x4D].contains(&mon.last2) && now.iff1 != before.iff2 && *op == HOp::Step && mon.op_ack == 0 {
                    return Err(at("RETN did not restore IFF1 from IFF2".into()));
                }
            }
            Aspect::Halt => {
                if now.halt != mon.halt { return Err(at(format!("halted={} expected {}", now.halt, mon.halt))); }
                let reported = matches!(res, OpRes::Out(Out::Halt) | OpRes::Irq(Some(Out::Halt)));
                let executed = mon.halt && mon.last == 0x76 && (!before.halt || !bev.is_empty() || matches!(op, HOp::Exec(_)));
                if matches!(op, HOp::Step | HOp::Run(_) | HOp::Exec(_) | HOp::Irq) && reported != executed { return Err(at(format!("HALT executed={} reported={}", executed, reported))); }
                if before.halt && bev.is_empty() && matches!(op, HOp::Step | HOp::Run(_)) {
                    let exp = State { r: before.r & 0x80 | (before.r as u64 + mon.m1s) as u8 & 0x7F, ..before };
                    if now != exp { return Err(at(format!("idling in HALT changed:{}", now.diff(&exp)))); }
                    if c1.ev.iter().any(|e| e.k != CK::M1 || e.addr != before.pc) { return Err(at(format!("halted cycles {:x?}", c1.ev))); }
                    if *op == HOp::Step && c1.ev.len() != 1 { return Err(at("a halted step is not one M1 cycle".into())); }
                    if let HOp::Run(d) = op {
                        // stops at the first M1 boundary at or after the limit
                        if c1.t < t0 + d { return Err(at("stopped before the limit".into())); }
                        if c1.ev.len() > 1 && c1.ev[c1.ev.len() - 2].after >= t0 + d { return Err(at("idled past the limit".into())); }
                        if c1.ev.len() == 1 && *d == 0 { return Err(at("idled with the limit already reached".into())); }
                    }
                }
            }
            Aspect::Shadow => {
                let got = (now.ei, now.pfx, now.iff1, now.iff2);
                let exp = (mon.ei, mon.pfx, mon.iff1, mon.iff2);
                if got != exp { return Err(at(format!("(after EI, prefix, iff1, iff2) {:x?} expected {:x?}", got, exp))); }
                if cpu.is_irq_allowed() != (mon.iff1 && !mon.blocked()) || cpu.is_nmi_allowed() != !mon.blocked() || cpu.is_after_prefix() != (mon.pfx != 0) {
                    return Err(at(format!("is_irq_allowed {} is_nmi_allowed {} is_after_prefix {}", cpu.is_irq_allowed(), cpu.is_nmi_allowed(), cpu.is_after_prefix())));
                }
            }
            Aspect::R => {
                if cpu.get_ir() != (now.i as u16) << 8 | now.r as u16 { return Err(at(format!("get_ir {:04x} but I={:02x} R={:02x}", cpu.get_ir(), now.i, now.r))); }
                let r0 = match op { HOp::Reset => 0, HOp::SetR(v) => *v, HOp::AddR(d) => before.r & 0x80 | (before.r as i64 + *d as i64).rem_euclid(128) as u8, _ => before.r };
                let exp = r0 & 0x80 | (r0 as u64 + mon.m1s) as u8 & 0x7F;
                let single = matches!(op, HOp::Step | HOp::Exec(_) | HOp::Irq);
                if !mon.wrote_r { if now.r != exp { return Err(at(format!("R={:02x} expected {:02x} after {} M1 cycles", now.r, exp, mon.m1s))); } }
                else if single && now.r != (before.af >> 8) as u8 { return Err(at(format!("R={:02x} after LD R,A with A={:02x}", now.r, before.af >> 8))); }
                if single && mon.op_instr == 1 && mon.last == 0xED && mon.last2 == 0x5F && (now.af >> 8) as u8 != now.r { return Err(at(format!("LD A,R gave {:02x}, R={:02x}", now.af >> 8, now.r))); }
                // refresh addresses of all fetches
                if !mon.wrote_r {
                    let mut m1 = 0u64;
                    let mut j = 0;
                    for (i, e) in c1.ev.iter().enumerate() {
                        if !matches!(e.k, CK::M1 | CK::Irq) { continue; }
                        m1 += 1;
                        while j < bev.len() && !(bev[j].k == BK::Op && bev[j].ts.seq == i as u32) { if bev[j].ts.seq != NOSEQ && bev[j].ts.seq > i as u32 { break; } j += 1; }
                        if j < bev.len() && bev[j].k == BK::Op && bev[j].ts.seq == i as u32 {
                            let want = r0 & 0x80 | (r0 as u64 + m1) as u8 & 0x7F;
                            if bev[j].aux as u8 != want { return Err(at(format!("refresh address {:04x} at fetch {:04x}, expected R={:02x}", bev[j].aux, bev[j].addr, want))); }
                            if single && (bev[j].aux >> 8) as u8 != before.i { return Err(at(format!("refresh address {:04x}, I={:02x}", bev[j].aux, before.i))); }
                        }
                    }
                }
                let mut n = cpu.clone();
                n.norm_r();
                if read_state(&n) != now || n.get_ir() != cpu.get_ir() { return Err(at(format!("normalize_r changed:{}", read_state(&n).diff(&now)))); }
                if n_mod(n.get_r()) != n_mod(now.r) { return Err(at("normalize_r changed R".into())); }
            }
        }
    }
    ctx.nontrivial = match aspect {
        Aspect::Irq => mon.n_ack > 0,
        Aspect::Nmi => ops.contains(&HOp::Nmi) && mon.n_instr > 2,
        Aspect::Halt => mon.n_halted > 0,
        Aspect::Shadow => mon.n_shadowed > 0 || mon.n_instr > 4,
        Aspect::R => mon.n_instr > 3,
    };
    ctx.class_if(mon.n_ack > 0, "interrupt acknowledged");
    ctx.class_if(mon.n_ack_halted > 0, "acknowledged while halted");
    ctx.class_if(mon.n_halted > 0, "idled in HALT");
    ctx.class_if(mon.n_shadowed > 0, "INT pending inside a shadow");
    Ok(())
}
fn n_mod(r: u8) -> u8 { r }
fn bump(r: u8) -> u8 { r & 0x80 | r.wrapping_add(1) & 0x7F }

const MIX_INT: Mix = [10, 5, 2, 3, 0, 9, 2];
const MIX_NMI: Mix = [10, 2, 1, 1, 6, 8, 2];
const MIX_HALT: Mix = [10, 5, 1, 1, 1, 9, 1];
const MIX_SHADOW: Mix = [12, 3, 2, 3, 3, 10, 2];
const MIX_R: Mix = [12, 4, 2, 1, 1, 6, 4];

fn hist_case(case: &Case, ctx: &mut Ctx, mix_: &Mix, aspect: Aspect) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let mut s = setup(&mut t);
    let w = t.w();
    // keep the INT line busy for the properties that are about it
    if matches!(aspect, Aspect::Irq | Aspect::Shadow | Aspect::Halt) && s.cfg.irq == Irq::Never && w & 3 != 0 { s.cfg.irq = if w & 4 != 0 { Irq::Always } else { Irq::Held { first: w >> 8 & 63, period: 1 + (w >> 16 & 63) } }; }
    if w & 0x38 != 0 && !matches!(aspect, Aspect::R) { s.cfg.style = 1; }
    let ops: Vec<HOp> = case.ops.iter().map(|w| hop(*w, mix_)).collect();
    ctx.describe(|| format!("{:x?} ops {:x?}", s, ops));
    let c = &mut *ctx;
    with_flavour!(s.fl, run_monitored, (&s, &ops, aspect, c))
}
fn c05_hist(case: &Case, ctx: &mut Ctx) -> Result<(), String> { hist_case(case, ctx, &MIX_INT, Aspect::Irq) }
fn c06_hist(case: &Case, ctx: &mut Ctx) -> Result<(), String> { hist_case(case, ctx, &MIX_NMI, Aspect::Nmi) }
fn c07_hist(case: &Case, ctx: &mut Ctx) -> Result<(), String> { hist_case(case, ctx, &MIX_HALT, Aspect::Halt) }
fn c08_hist(case: &Case, ctx: &mut Ctx) -> Result<(), String> { hist_case(case, ctx, &MIX_SHADOW, Aspect::Shadow) }
fn c18_hist(case: &Case, ctx: &mut Ctx) -> Result<(), String> { hist_case(case, ctx, &MIX_R, Aspect::R) }

// ---------------------------------------------------------------- C05: one acceptance, in full
fn entry_state(t: &mut Tape) -> (Setup, u64) {
    let mut s = setup(t);
    let w = t.w();
    s.cfg.irq = Irq::Always;
    s.cfg.irq_style = (w & 3) as u8;
    // mostly acceptable, in all combinations
    if w >> 2 & 3 != 0 { s.st.iff1 = true; if w >> 8 & 3 != 0 { s.st.ei = false; s.st.pfx = 0; } }
    if w >> 4 & 3 == 0 && !s.st.ei && s.st.pfx == 0 { s.st.halt = true; }
    (s, w >> 16)
}

fn run_accept<C: CpuX + Clone>(s: &Setup, route: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut cpu: C = make(s.fl, &s.st, s.q);
    let orig = cpu.clone();
    let before = read_state(&cpu);
    let can = before.iff1 && !before.ei && before.pfx == 0;
    ctx.h1.reset(s.cfg, true); ctx.h2.reset(s.cfg, true);
    ctx.c1.reset(s.t0, s.cont, true); ctx.c2.reset(s.t0, s.cont, true);
    let res = match route {
        0 => {
            if !can && route == 0 {
                let r = apply(&HOp::Irq, &mut cpu, &mut ctx.h1, &mut ctx.c1);
                if r != OpRes::Irq(None) { return Err(format!("irq() must be refused, got {:?}", r)); }
                if cpu != orig || !ctx.c1.ev.is_empty() || !ctx.h1.ev.borrow().is_empty() { return Err(format!("refused irq() had an effect:{}", read_state(&cpu).diff(&before))); }
                return Ok(());
            }
            match apply(&HOp::Irq, &mut cpu, &mut ctx.h1, &mut ctx.c1) { OpRes::Irq(Some(o)) => o, x => return Err(format!("irq() must be accepted, got {:?}", x)) }
        }
        1 => step(&mut cpu, &mut ctx.h1, &mut ctx.c1),
        _ => { let lim = ctx.c1.t + 1; out_of(cpu.execute_with_limit(&mut ctx.h1, &mut ctx.c1, lim)) }
    };
    let acked = ctx.h1.acks > 0;
    if acked != can { return Err(format!("acknowledged={} but iff1={} ei={} prefix={:02x}", acked, before.iff1, before.ei, before.pfx)); }
    if !can { return Ok(()); }
    ctx.nontrivial = true;
    ctx.class(match before.im { 0 => "mode 0", 1 => "mode 1", _ => "mode 2" });
    ctx.class_if(before.halt, "from HALT");
    // expected: acknowledge cycle, then the mode's sequence
    let Ctx { h2, c2, .. } = ctx;
    let pc = if before.halt { before.pc.wrapping_add(1) } else { before.pc };
    let r = bump(before.r);
    let ir = (before.i as u16) << 8 | r as u16;
    let ts = c2.add_irq(pc);
    let (v, ws) = h2.irq_data(pc, ts);
    if let Some(w) = ws { c2.add_wait_states(pc, w); }
    let base = State { iff1: false, iff2: false, halt: false, pc, r, ..before };
    let sp = before.sp;
    let (exp, expres) = match before.im {
        0 => {
            // exactly what executing that opcode from the acknowledged state does
            let mut c = orig.clone();
            c.set_iffs(false, false); c.set_pc(pc); c.set_r(r);
            let o = exec(&mut c, h2, c2, v);
            (read_state(&c), o)
        }
        m => {
            c2.add_no_mreq(ir, NonZeroU8::new(1).unwrap());
            for (k, b) in [(1u16, (pc >> 8) as u8), (2, pc as u8)] { let a = sp.wrapping_sub(k); let ts = c2.add_mreq(a); h2.write_mem(a, b, ts); }
            let target = if m == 1 { 0x38 } else {
                let va = (before.i as u16) << 8 | v as u16;
                let ts = c2.add_mreq(va);
                let x = h2.read_mem16(va, ts);
                c2.add_mreq(va.wrapping_add(1));
                x
            };
            (State { pc: target, wz: target, sp: sp.wrapping_sub(2), ..base }, Out::Ok)
        }
    };
    if res != expres { return Err(format!("result {:?} expected {:?}", res, expres)); }
    let now = read_state(&cpu);
    if now != exp { return Err(format!("mode {} data {:02x}: cpu!=expected:{}", before.im, v, now.diff(&exp))); }
    if before.im != 0 && s.cont.level == 0 {
        let cost = ctx.c1.t - s.t0 - ws.map_or(0, |w| w.get() as u64);
        let want = if before.im == 1 { 13 } else { 19 };
        if cost != want { return Err(format!("mode {} took {} T-states instead of {}", before.im, cost, want)); }
    }
    if let Some(d) = diff_trace(&ctx.h1, &ctx.c1, &ctx.h2, &ctx.c2) { return Err(format!("mode {} data {:02x}: {}", before.im, v, d)); }
    Ok(())
}
fn c05_accept(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let (s, w) = entry_state(&mut t);
    let route = w % 3;
    ctx.describe(|| format!("route {} {:x?}", ["irq()", "execute_next", "execute_with_limit"][route as usize], s));
    let c = &mut *ctx;
    with_flavour!(s.fl, run_accept, (&s, route, c))
}
/// acknowledgements happen at the same times whichever engine runs the program
fn run_ackeng<C: CpuX + Clone>(s: &Setup, total: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut logs: Vec<Vec<(u16, u64)>> = Vec::new();
    for by_step in [true, false] {
        let mut cpu: C = make(s.fl, &s.st, s.q);
        let (h, k) = if by_step { (&mut ctx.h1, &mut ctx.c1) } else { (&mut ctx.h2, &mut ctx.c2) };
        h.reset(s.cfg, true); k.reset(s.t0, s.cont, false);
        h.budget = BUDGET; k.budget = BUDGET;
        while k.t < s.t0 + total {
            if by_step { step(&mut cpu, h, k); } else { let _ = cpu.execute_with_limit(h, k, s.t0 + total); }
        }
        logs.push(h.ev.borrow().iter().filter(|e| e.k == BK::IrqData).map(|e| (e.addr, e.ts.t)).collect());
    }
    ctx.nontrivial = logs[0].len() > 1;
    ctx.class_if(logs[0].len() > 3, "more than 3 acknowledgements");
    if logs[0] != logs[1] { return Err(format!("(pc, time) of acknowledgements: stepping {:x?} limited run {:x?}", logs[0], logs[1])); }
    Ok(())
}
fn c05_engines(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let mut s = setup(&mut t);
    let w = t.w();
    if s.cfg.irq == Irq::Never { s.cfg.irq = Irq::Held { first: w & 63, period: 1 + (w >> 8 & 127) }; }
    s.cfg.style = 1;
    ctx.describe(|| format!("{} T of {:x?}", (w >> 16) % 1200, s));
    let c = &mut *ctx;
    with_flavour!(s.fl, run_ackeng, (&s, (w >> 16) % 1200, c))
}

// ---------------------------------------------------------------- C06: one NMI in full, and the way back
fn run_nmi<C: CpuX + Clone>(s: &Setup, w: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut cpu: C = make(s.fl, &s.st, s.q);
    let orig = cpu.clone();
    let before = read_state(&cpu);
    let can = !before.ei && before.pfx == 0;
    ctx.h1.reset(s.cfg, true); ctx.h2.reset(s.cfg, true);
    ctx.c1.reset(s.t0, s.cont, true); ctx.c2.reset(s.t0, s.cont, true);
    if cpu.is_nmi_allowed() != can { return Err(format!("is_nmi_allowed {} expected {}", cpu.is_nmi_allowed(), can)); }
    let got = cpu.nmi(&mut ctx.h1, &mut ctx.c1);
    if got != can { return Err(format!("nmi() returned {} expected {}", got, can)); }
    if !can {
        if cpu != orig || !ctx.c1.ev.is_empty() || !ctx.h1.ev.borrow().is_empty() { return Err(format!("refused NMI had an effect:{}", read_state(&cpu).diff(&before))); }
        return Ok(());
    }
    ctx.nontrivial = true;
    ctx.class_if(before.halt, "from HALT");
    ctx.class_if(before.iff1 != before.iff2, "iff1 != iff2");
    let Ctx { h2, c2, .. } = ctx;
    let pc = if before.halt { before.pc.wrapping_add(1) } else { before.pc };
    let r = bump(before.r);
    c2.add_m1(pc);
    c2.add_no_mreq((before.i as u16) << 8 | r as u16, NonZeroU8::new(1).unwrap());
    for (k, b) in [(1u16, (pc >> 8) as u8), (2, pc as u8)] { let a = before.sp.wrapping_sub(k); let ts = c2.add_mreq(a); h2.write_mem(a, b, ts); }
    let exp = State { pc: 0x66, sp: before.sp.wrapping_sub(2), iff1: false, halt: false, r, ..before };
    let now = read_state(&cpu);
    if now != exp { return Err(format!("after NMI:{}", now.diff(&exp))); }
    if let Some(d) = diff_trace(&ctx.h1, &ctx.c1, &ctx.h2, &ctx.c2) { return Err(d); }
    if s.cont.level == 0 && ctx.c1.t - s.t0 != 11 { return Err(format!("NMI took {} T-states", ctx.c1.t - s.t0)); }
    // RETN in the handler: IFF1 := IFF2 and back to the interrupted place
    if s.cfg.rom == 0 && before.sp.wrapping_sub(0x66) > 8 && before.sp.wrapping_sub(2).wrapping_sub(0x66) > 8 {
        let op = [0x45u8, 0x55, 0x5D, 0x65, 0x6D, 0x75, 0x7D][(w % 7) as usize];
        ctx.h1.poke(0x66, 0xED); ctx.h1.poke(0x67, op);
        let r = step(&mut cpu, &mut ctx.h1, &mut ctx.c1);
        let now = read_state(&cpu);
        let exp = State { pc, sp: before.sp, iff1: before.iff2, r: bump(bump(exp.r)), wz: now.wz, ..exp };
        if r != Out::Ok || now != exp { return Err(format!("RETN (ED {:02x}) after NMI: {:?}{}", op, r, now.diff(&exp))); }
    }
    Ok(())
}
fn c06_accept(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let (mut s, w) = entry_state(&mut t);
    s.cfg.irq = Irq::Never;
    ctx.describe(|| format!("{:x?}", s));
    let c = &mut *ctx;
    with_flavour!(s.fl, run_nmi, (&s, w, c))
}

// ---------------------------------------------------------------- C07: enter, idle in three ways, leave
fn run_halt<C: CpuX + Clone>(s: &Setup, prefix: u8, idle: u64, leave: u64, splits: &[u64], ctx: &mut Ctx) -> Result<(), String> {
    let mut ends: Vec<(State, u64, u64, Out)> = Vec::new();
    let mut cpus = Vec::new();
    for way in 0..3 {
        let mut cpu: C = make(s.fl, &s.st, s.q);
        let (h, k) = match way { 0 => (&mut ctx.h1, &mut ctx.c1), 1 => (&mut ctx.h2, &mut ctx.c2), _ => (&mut ctx.h3, &mut ctx.c3) };
        h.reset(s.cfg, true); k.reset(s.t0, s.cont, true);
        h.budget = BUDGET; k.budget = BUDGET;
        let mut a = s.st.pc;
        if prefix != 0 { h.poke(a, prefix); a = a.wrapping_add(1); }
        h.poke(a, 0x76);
        let m1 = 1 + (prefix != 0) as u64;
        if way == 1 {
            let r = out_of(cpu.execute_with_limit(h, k, k.t + 100));
            if r != Out::Halt { return Err(format!("execute_with_limit over HALT returned {:?}", r)); }
        } else {
            if prefix != 0 { step(&mut cpu, h, k); }
            let r = step(&mut cpu, h, k);
            if r != Out::Halt { return Err(format!("execute_next on HALT returned {:?}", r)); }
        }
        let st = read_state(&cpu);
        let hr = s.st.r & 0x80 | (s.st.r as u64 + m1) as u8 & 0x7F;
        // registers are untouched; the program counter keeps designating the HALT instruction
        let exp = State { pc: a, r: hr, halt: true, ei: false, pfx: 0, ..s.st };
        if st != exp { return Err(format!("after HALT:{}", st.diff(&exp))); }
        clear_events(h, k);
        let lim = k.t + idle;
        let t0 = k.t;
        match way {
            0 => while k.t < lim { if step(&mut cpu, h, k) != Out::Ok { return Err("a halted step reported a break".into()); } },
            1 => { let r = out_of(cpu.execute_with_limit(h, k, lim)); if r != Out::Ok || k.t < lim { return Err(format!("halted run: {:?} at {} limit {}", r, k.t, lim)); } }
            _ => {
                for sp in splits { let l = t0 + sp % (idle + 1); let r = out_of(cpu.execute_with_limit(h, k, l)); if r != Out::Ok || k.t < l { return Err(format!("halted run: {:?}", r)); } }
                let r = out_of(cpu.execute_with_limit(h, k, lim)); if r != Out::Ok { return Err(format!("halted run: {:?}", r)); }
            }
        }
        if k.ev.iter().any(|e| e.k != CK::M1 || e.addr != a) || !h.ev.borrow().is_empty() { return Err(format!("cycles while halted: {:x?} {:x?}", k.ev, h.ev.borrow())); }
        if k.ev.len() >= 2 && k.ev[k.ev.len() - 2].after >= lim { return Err("idled past the limit".into()); }
        let st = read_state(&cpu);
        let exp = State { r: hr & 0x80 | (hr as u64 + k.ev.len() as u64) as u8 & 0x7F, ..exp };
        if st != exp { return Err(format!("after {} halted cycles:{}", k.ev.len(), st.diff(&exp))); }
        // leave
        clear_events(h, k);
        let ret = a.wrapping_add(1);
        let mut o = Out::Ok;
        match leave {
            0 => { if !cpu.nmi(h, k) { return Err("NMI refused while halted".into()); } }
            1 => { cpu.set_iffs(true, true); h.cfg.irq = Irq::Always; h.cfg.irq_style = 0; if cpu.get_im() == z80emu::InterruptMode::Mode0 { cpu.set_im(z80emu::InterruptMode::Mode1) } o = if way == 1 { let l = k.t + 1; out_of(cpu.execute_with_limit(h, k, l)) } else { step(&mut cpu, h, k) }; }
            2 => { o = exec(&mut cpu, h, k, 0x00); }
            _ => { cpu.reset(); }
        }
        let st = read_state(&cpu);
        if st.halt { return Err("still halted after leaving".into()); }
        match leave {
            0 | 1 => {
                let w: Vec<(u16, u16)> = h.ev.borrow().iter().filter(|e| e.k == BK::Wr).map(|e| (e.addr, e.val)).collect();
                if w != vec![(exp.sp.wrapping_sub(1), ret >> 8), (exp.sp.wrapping_sub(2), ret & 255)] { return Err(format!("return address pushed on leaving HALT at {:04x}: {:x?}", a, w)); }
            }
            2 => { let e = State { halt: false, ..exp }; if st != e { return Err(format!("execute_instruction(NOP) in HALT:{}", st.diff(&e))); } }
            _ => {}
        }
        ends.push((st, k.t, h.hash.get(), o));
        cpu.norm_r();
        cpus.push(cpu);
    }
    for i in 1..3 {
        if ends[i].0 != ends[0].0 { return Err(format!("way {} of idling ends differently:{}", i, ends[i].0.diff(&ends[0].0))); }
        if ends[i].1 != ends[0].1 { return Err(format!("way {} of idling: clock {} != {}", i, ends[i].1, ends[0].1)); }
        if cpus[i] != cpus[0] { return Err("CPU instances compare unequal".into()); }
    }
    ctx.nontrivial = idle > 0;
    ctx.class(match leave { 0 => "left by NMI", 1 => "left by interrupt", 2 => "left by execute_instruction", _ => "left by reset" });
    Ok(())
}
fn c07_ways(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let mut s = setup(&mut t);
    let w = t.w();
    s.cfg.irq = Irq::Never; s.st.halt = false; s.st.ei = false; s.st.pfx = 0;
    let prefix = [0, 0, 0xDD, 0xFD][(w & 3) as usize];
    let idle = if w >> 2 & 3 == 0 { w >> 8 & 15 } else { (w >> 8) % 700 };
    let leave = w >> 4 & 3;
    ctx.describe(|| format!("prefix {:02x} idle {} leave {} {:x?}", prefix, idle, leave, s));
    let mut sp: Vec<u64> = case.ops.clone();
    sp.sort_by_key(|x| x % (idle + 1));
    let c = &mut *ctx;
    with_flavour!(s.fl, run_halt, (&s, prefix, idle, leave, &sp, c))
}

pub fn props() -> Vec<Prop> {
    let hp = |name, run, quick, thorough| Part { name, nh: HIST_W + 1, max_ops: 40, quick, thorough, run, enumerate: None };
    let sp = |name, run, quick, thorough| Part { name, nh: HIST_W + 1, max_ops: 0, quick, thorough, run, enumerate: None };
    const A: &[&str] = &["is_irq is a level: a function of the time and of acknowledgements, not of how often it is polled"];
    vec![
        Prop { id: "C05", parts: vec![sp("acceptance", c05_accept, 4_000_000, 300_000_000), hp("histories", c05_hist, 1_500_000, 80_000_000), Part { max_ops: 0, ..hp("engines", c05_engines, 1_500_000, 80_000_000) }],
            rule: "a case is one acceptance from an arbitrary state by one of three routes, or a history under an interrupt schedule; non-trivial: an interrupt was acknowledged (engines: at least two)", assumptions: A },
        Prop { id: "C06", parts: vec![sp("acceptance", c06_accept, 4_000_000, 300_000_000), hp("histories", c06_hist, 1_500_000, 80_000_000)],
            rule: "a case is one nmi() from an arbitrary state followed by RETN, or a history with NMIs; non-trivial: the NMI was accepted / the history requests an NMI and executes more than 2 instructions", assumptions: &[] },
        Prop { id: "C07", parts: vec![Part { max_ops: 6, ..sp("enter-idle-leave", c07_ways, 1_500_000, 100_000_000) }, hp("histories", c07_hist, 1_500_000, 80_000_000)],
            rule: "a case enters HALT from an arbitrary state, idles by stepping / one run / split runs and leaves in one of four ways, or is a history; non-trivial: at least one idle cycle was due (histories: was seen)", assumptions: A },
        Prop { id: "C08", parts: vec![hp("histories", c08_hist, 3_000_000, 200_000_000)],
            rule: "a case is a history of up to 40 API operations biased to EI/DI/prefix/RETN with a busy INT line; non-trivial: INT was pending inside a shadow, or more than 4 instructions were executed", assumptions: A },
        Prop { id: "C18", parts: vec![hp("histories", c18_hist, 3_000_000, 200_000_000)],
            rule: "a case is a history of up to 40 API operations incl. inc/add/set of R; non-trivial: more than 3 instructions executed", assumptions: &[] },
    ]
}
