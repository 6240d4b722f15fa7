//! C04 (debug closure), C11 (disassembler), C12 (text of reports).
use crate::asm::*;
use crate::hist::*;
use crate::host::*;
use crate::monitor::Monitor;
use crate::p_instr::*;
use crate::runner::*;
use crate::state::*;
use crate::tape::*;
use crate::with_flavour;
use z80emu::disasm::*;
use z80emu::{Cpu, CpuDebug, Z80Any};

/// The report must be one for the instruction whose bytes are `bytes` (what was, or would be, fetched from `addr` on,
/// `pfx`: the index prefix pending before it).
fn check_report(d: &CpuDebug, pfx: u8, bytes: &[u8], addr: u16, check_pc: bool) -> Result<(), String> {
    let mut full: Vec<u8> = Vec::with_capacity(8);
    if pfx != 0 { full.push(pfx); }
    full.extend_from_slice(bytes);
    let with = if pfx != 0 { decode(&full) } else { None };
    let (text, enc, start, included) = match (with, pfx) {
        // the prefix applies: it belongs to the instruction
        (Some((t, v, true)), _) => (t, v, &full[..], true),
        // it changes nothing (or is superseded): may be reported with or without it
        (Some((t, v, false)), _) if d.prefix.is_some() => (t, v, &full[..], true),
        _ => { let (t, v, _) = decode(bytes).ok_or("a report for a lone prefix")?; (t, v, bytes, false) }
    };
    let want = &start[..enc.len().min(start.len())];
    if d.code.as_slice() != want { return Err(format!("reported bytes {:02x?}, executed {:02x?} ({})", d.code.as_slice(), want, text)); }
    let px = d.prefix.map_or(0, |p| p.to_code());
    if included != (px != 0) || (px != 0 && px != pfx) { return Err(format!("reported prefix {:02x}, applied {:02x} ({})", px, pfx, text)); }
    let first = addr.wrapping_sub(included as u16);
    if check_pc && d.pc != first { return Err(format!("reported address {:04x}, instruction at {:04x} ({})", d.pc, first, text)); }
    let asm = assemble(d.mnemonic, &opnds(&d.args), first);
    if !asm.iter().any(|b| b.as_slice() == want) { return Err(format!("report {:?} {:?} assembles to {:02x?}, executed {:02x?} ({})", d.mnemonic, d.args, asm, want, text)); }
    Ok(())
}

#[derive(Clone, Debug)]
enum Way { Next, Exec(u8) }

fn run_one<C: CpuX + Clone>(s: &Setup, code: &[u8], way: &Way, ctx: &mut Ctx) -> Result<(), String> {
    let mut a: C = make(s.fl, &s.st, s.q);
    let mut b = a.clone();
    ctx.h1.reset(s.cfg, true); ctx.h2.reset(s.cfg, true);
    ctx.c1.reset(s.t0, s.cont, true); ctx.c2.reset(s.t0, s.cont, true);
    for (i, v) in code.iter().enumerate() { let x = s.st.pc.wrapping_add(i as u16); ctx.h1.poke(x, *v); ctx.h2.poke(x, *v); }
    let Ctx { h1, c1, h2, c2, .. } = &mut *ctx;
    for n in 0..5 {
        let before = read_state(&a);
        let snap: Vec<u8> = (0..5).map(|i| h1.peek(before.pc.wrapping_add(i))).collect();
        let mut reports: Vec<CpuDebug> = Vec::new();
        let (r1, r2, bytes, addr, inj) = match way {
            Way::Exec(op) if n == 0 => {
                let mut by = vec![*op];
                by.extend_from_slice(&snap);
                (exec(&mut a, h1, c1, *op), out_of(b.execute_instruction(h2, c2, Some(|d| reports.push(d)), *op)), by, before.pc.wrapping_sub(1), true)
            }
            _ => (step(&mut a, h1, c1), out_of(b.execute_next(h2, c2, Some(|d| reports.push(d)))), snap, before.pc, false),
        };
        if r1 != r2 { return Err(format!("result {:?} without a debugger, {:?} with one", r1, r2)); }
        if a != b || read_state(&a) != read_state(&b) { return Err(format!("state without!=with debugger:{}", read_state(&a).diff(&read_state(&b)))); }
        if let Some(d) = diff_trace(h1, c1, h2, c2) { return Err(format!("with (second) and without (first) debugger: {}", d)); }
        let expected = if before.halt && !inj { 0 } else { (bytes[0] != 0xDD && bytes[0] != 0xFD) as usize };
        if reports.len() != expected { return Err(format!("closure called {} times, expected {} (executing {:02x?}, halted {})", reports.len(), expected, bytes, before.halt)); }
        if expected == 1 {
            check_report(&reports[0], before.pfx, &bytes, addr, !inj).map_err(|e| format!("pc {:04x}: {}", before.pc, e))?;
        }
        if expected == 1 { break; }
    }
    ctx.nontrivial = true;
    ctx.class_if(s.st.pc > 0xFFFA, "instruction at the top of memory");
    ctx.class_if(s.st.halt, "while halted");
    Ok(())
}
fn c04_one(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let mut s = setup(&mut t);
    s.cfg.irq = Irq::Never;
    let code = opcode(&mut t);
    let w = t.w();
    if w & 3 == 0 { s.st.pc = 0xFFFAu16.wrapping_add((w >> 8) as u16 % 8); }
    let way = if w >> 2 & 3 == 0 { Way::Exec(code[0]) } else { Way::Next };
    let mem: &[u8] = if let Way::Exec(_) = way { &code[1..] } else { &code };
    ctx.describe(|| format!("{:?} code {:02x?} {:x?}", way, code, s));
    let c = &mut *ctx;
    with_flavour!(s.fl, run_one, (&s, mem, &way, c))
}

fn apply_dbg<C: CpuX>(op: &HOp, c: &mut C, h: &mut TestHost, k: &mut TestClock, rep: &mut Vec<CpuDebug>) -> OpRes {
    match op {
        HOp::Step => OpRes::Out(out_of(c.execute_next(h, k, Some(|d| rep.push(d))))),
        HOp::Exec(code) => OpRes::Out(out_of(c.execute_instruction(h, k, Some(|d| rep.push(d)), *code))),
        HOp::Irq => OpRes::Irq(c.irq(h, k, Some(|d| rep.push(d))).map(out_of)),
        _ => apply(op, c, h, k),
    }
}
fn run_hist<C: CpuX + Clone>(s: &Setup, ops: &[HOp], ctx: &mut Ctx) -> Result<(), String> {
    let mut a: C = make(s.fl, &s.st, s.q);
    let mut b = a.clone();
    let mut mon = Monitor::new(&s.st);
    let Ctx { h1, c1, h2, c2, .. } = &mut *ctx;
    h1.reset(s.cfg, true); h2.reset(s.cfg, true);
    c1.reset(s.t0, s.cont, true); c2.reset(s.t0, s.cont, true);
    let mut calls = 0;
    for (n, op) in ops.iter().enumerate() {
        let before = read_state(&a);
        if !allowed(op, &before) { continue; }
        clear_events(h1, c1); clear_events(h2, c2);
        let t0 = c1.t;
        let snap: Vec<u8> = (0..5).map(|i| h1.peek(before.pc.wrapping_add(i))).collect();
        let ret_snap: Vec<u8> = (1..6).map(|i| h1.peek(before.pc.wrapping_add(i))).collect();
        let r1 = apply(op, &mut a, h1, c1);
        let mut rep = Vec::new();
        let r2 = apply_dbg(op, &mut b, h2, c2, &mut rep);
        let at = |m: String| format!("op {} {:?} from {:x?}: {}", n, op, before, m);
        if r1 != r2 { return Err(at(format!("result {:?} without a debugger, {:?} with one", r1, r2))); }
        if a != b || read_state(&a) != read_state(&b) { return Err(at(format!("state without!=with debugger:{}", read_state(&a).diff(&read_state(&b))))); }
        if let Some(d) = diff_trace(h1, c1, h2, c2) { return Err(at(d)); }
        if matches!(op, HOp::Place(_)) { continue; }
        let acc = match &r1 { OpRes::Irq(x) => x.is_some(), OpRes::Nmi(x) => *x, _ => true };
        let bev = h1.ev.borrow();
        if mon.op(op, acc, &s.cfg, t0, &c1.ev, &bev).is_err() { return Ok(()); } // not this property's concern
        if !matches!(op, HOp::Step | HOp::Exec(_) | HOp::Irq) { continue; }
        // instructions executed by the operation, from the bus trace; in modes 1 and 2 the acknowledge executes one
        let lone = mon.op_instr > 0 && matches!(mon.last, 0xDD | 0xFD);
        let expected = if mon.op_ack > 0 { if mon.im_acked == 0 { !lone as usize } else { 1 } } else { (mon.op_instr > 0 && !lone) as usize };
        if rep.len() != expected { return Err(at(format!("closure called {} times, expected {}", rep.len(), expected))); }
        if expected == 0 { continue; }
        calls += 1;
        let d = &rep[0];
        if mon.op_ack > 0 {
            let v = bev.iter().find(|e| e.k == BK::IrqData).map_or(0, |e| e.val as u8);
            let pc = if before.halt { before.pc.wrapping_add(1) } else { before.pc };
            let now = read_state(&a);
            let (bytes, addr) = match mon.im_acked {
                0 => { let mut x = vec![v]; x.extend_from_slice(if before.halt { &ret_snap } else { &snap }); (x, pc.wrapping_sub(1)) }
                1 => (vec![0xFF], pc.wrapping_sub(1)),
                _ => (vec![0xC3, now.pc as u8, (now.pc >> 8) as u8], d.pc),
            };
            check_report(d, 0, &bytes, addr, false).map_err(|e| at(format!("interrupt mode {}: {}", mon.im_acked, e)))?;
        } else if let HOp::Exec(code) = op {
            let mut x = vec![*code]; x.extend_from_slice(&snap);
            check_report(d, before.pfx, &x, before.pc.wrapping_sub(1), false).map_err(at)?;
        } else {
            check_report(d, before.pfx, &snap, before.pc, true).map_err(at)?;
        }
    }
    ctx.nontrivial = calls > 2;
    ctx.class_if(mon.n_ack > 0, "interrupt acknowledged under a debugger");
    ctx.class_if(mon.n_halted > 0, "halted cycles");
    Ok(())
}
const MIX_DBG: Mix = [16, 1, 4, 3, 1, 8, 2];
fn c04_hist(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let s = setup(&mut t);
    let ops: Vec<HOp> = case.ops.iter().map(|w| hop(*w, &MIX_DBG)).collect();
    ctx.describe(|| format!("{:x?} ops {:x?}", s, ops));
    let c = &mut *ctx;
    with_flavour!(s.fl, run_hist, (&s, &ops, c))
}

// ---------------------------------------------------------------- C11
fn bytes_of(case: &Case) -> Vec<u8> {
    let mut v = Vec::new();
    for w in &case.ops {
        match w & 7 {
            0 | 1 | 2 | 3 => { let ws = [w >> 3, mix(*w, 3)]; v.extend(opcode(&mut Tape::new(&ws))); }
            4 => { for i in 0..(w >> 3 & 7) { v.push((w >> (8 + 7 * i)) as u8); } }
            5 => { for i in 0..(w >> 3 & 7) { v.push([0xDD, 0xFD, 0xDD, 0xFD, 0xED, 0xCB, 0x76, 0xFB][(w >> (8 + 3 * i)) as usize & 7]); } }
            6 => v.push([0x76, 0xDD, 0xFD, 0xED, 0xCB, 0xFB, 0xC9, 0x10][(w >> 3) as usize & 7]),
            _ => { let ws = [w >> 3, mix(*w, 4)]; let o = opcode(&mut Tape::new(&ws)); let n = (w >> 40) as usize % o.len(); v.extend(&o[..n]); }
        }
    }
    v
}
fn all<C: Cpu>(pc: u16, mem: &[u8]) -> Vec<CpuDebug> {
    let mut v = Vec::new();
    let r: Result<(), ()> = disasm_memory::<C, _, _>(pc, mem, |d| { v.push(d); Ok(()) });
    assert!(r.is_ok());
    v
}
struct Lim(String, usize);
impl std::fmt::Write for Lim {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0.len() + s.len() > self.1 { return Err(std::fmt::Error); }
        self.0.push_str(s); Ok(())
    }
}

fn run_disasm<C: CpuX + Clone>(fl: Fl, pc: u16, mem: &[u8], w: u64, ctx: &mut Ctx) -> Result<(), String> {
    let list = all::<C>(pc, mem);
    // tiling
    let mut cur = 0usize;
    for d in &list {
        // only superseded or meaningless prefixes may lie between two reports
        let mut at = cur;
        let len = d.code.len();
        let off_pc = |o: usize| pc.wrapping_add(o as u16);
        loop {
            if at + len > mem.len() { return Err(format!("report {:?} does not lie in the input (cursor {})", d, cur)); }
            if d.pc == off_pc(at) && &mem[at..at + len] == d.code.as_slice() && len > 0 { break; }
            if !matches!(mem[at], 0xDD | 0xFD) { return Err(format!("report {:?} at offset {}: expected address {:04x} bytes {:02x?}", d, at, off_pc(at), &mem[at..(at + 4).min(mem.len())])); }
            at += 1;
        }
        let pfx = if at > cur { mem[at - 1] } else { 0 };
        let (t, enc, _) = decode(&mem[at..]).ok_or_else(|| format!("report {:?} starts with a superseded prefix", d))?;
        if enc.len() != len { return Err(format!("report {:?}: {} has {} bytes", d, t, enc.len())); }
        if pfx != 0 {
            let mut x = vec![pfx]; x.extend_from_slice(&mem[at..]);
            if let Some((t2, _, true)) = decode(&x) { return Err(format!("report {:?} lost its prefix ({})", d, t2)); }
        }
        let asm = assemble(d.mnemonic, &opnds(&d.args), d.pc);
        if !asm.iter().any(|b| b.as_slice() == d.code.as_slice()) { return Err(format!("report {:?} assembles to {:02x?} ({})", d, asm, t)); }
        if d.prefix.map_or(0, |p| p.to_code()) != (if matches!(d.code[0], 0xDD | 0xFD) { d.code[0] } else { 0 }) { return Err(format!("report {:?}: prefix field", d)); }
        cur = at + len;
    }
    // tail: prefixes, then nothing or one truncated instruction
    let mut at = cur;
    while at < mem.len() && matches!(mem[at], 0xDD | 0xFD) { at += 1; }
    if at < mem.len() {
        let from = if at > cur { at - 1 } else { at };
        let complete = |b: &[u8]| decode(b).map_or(false, |(_, v, _)| v.len() <= b.len());
        let dec = decode(&mem[from..]);
        let (whole, _) = match dec { Some(_) => (complete(&mem[from..]), 0), None => (complete(&mem[at..]), 0) };
        if whole { return Err(format!("complete instruction at offset {} was not reported: {:02x?}", from, &mem[from..])); }
        // fewer than an instruction's bytes may remain
        if mem.len() - at > 3 { return Err(format!("{} bytes left unreported", mem.len() - at)); }
        ctx.class("truncated instruction at the end");
    }
    // determinism, once, error propagation
    if all::<C>(pc, mem) != list { return Err("a second disassembly differs".into()); }
    let once = disasm_memory_once::<C>(pc, mem);
    if once.as_ref() != list.first() { return Err(format!("disasm_memory_once {:?} but the first report is {:?}", once, list.first())); }
    if !list.is_empty() {
        let stop = w as usize % list.len();
        let mut n = 0;
        let mut seen = Vec::new();
        let r: Result<(), u64> = disasm_memory::<C, _, _>(pc, mem, |d| { seen.push(d); n += 1; if n == stop + 1 { Err(w) } else { Ok(()) } });
        if r != Err(w) || seen[..] != list[..stop + 1] { return Err(format!("callback error at report {}: returned {:?} after {} reports", stop, r, seen.len())); }
    }
    // text
    let mut text = String::new();
    disasm_memory_write_text::<C, _>(pc, mem, &mut text).map_err(|_| "write_text failed".to_string())?;
    let exp: String = list.iter().map(|d| format!("{}\n", expected_line(d, Num::Hex { upper: false, alt: false }))).collect();
    if text != exp { return Err(format!("disasm_memory_write_text gave {:?}, reports are {:?}", text, exp)); }
    if !exp.is_empty() {
        let cut = (w >> 8) as usize % exp.len();
        let mut lim = Lim(String::new(), cut);
        if disasm_memory_write_text::<C, _>(pc, mem, &mut lim).is_ok() { return Err("an error of the writer was swallowed".into()); }
        if !exp.starts_with(&lim.0) { return Err("text written before the writer's error differs".into()); }
    }
    // what a debugger sees
    ctx.h1.reset(HostCfg { mem_seed: w, ..HostCfg::default() }, false);
    ctx.c1.reset(0, Cont::default(), false);
    if mem.len() <= 0x10000 {
        for (i, b) in mem.iter().enumerate() { ctx.h1.poke(pc.wrapping_add(i as u16), *b); }
        for d in list.iter().take(12) {
            let mut cpu = C::fresh(fl);
            cpu.set_pc(d.pc);
            // writes of instructions executed before must not damage the listing
            for (i, b) in d.code.iter().enumerate() { ctx.h1.poke(d.pc.wrapping_add(i as u16), *b); }
            let mut got = None;
            for _ in 0..2 { let _ = cpu.execute_next(&mut ctx.h1, &mut ctx.c1, Some(|x| got = Some(x))); if got.is_some() { break; } }
            if got.as_ref() != Some(d) { return Err(format!("disassembled {:?}, a debugger sees {:?}", d, got)); }
        }
    }
    ctx.nontrivial = list.len() > 1;
    ctx.class_if((pc as usize) + mem.len() > 0x10000, "wraps past FFFF");
    ctx.class_if(mem.len() > 0x10000, "longer than the address space");
    Ok(())
}
fn c11_bytes(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let w = case.h[1];
    let fl = FLS[(w % 3) as usize];
    let mem = bytes_of(case);
    let pc = if case.h[0] & 3 == 0 { 0u16.wrapping_sub((case.h[0] >> 8) as u16 % (mem.len() as u16 + 2)) } else { b16(case.h[0] >> 2) };
    ctx.describe(|| format!("{:?} at {:04x}: {:02x?}", fl, pc, mem));
    let c = &mut *ctx;
    with_flavour!(fl, run_disasm, (fl, pc, &mem, w >> 2, c))?;
    // the flavour does not matter, nor does the wrapper
    let l = all::<z80emu::Z80NMOS>(pc, &mem);
    if all::<z80emu::Z80CMOS>(pc, &mem) != l || all::<z80emu::Z80<z80emu::z80::BM1>>(pc, &mem) != l || all::<Z80Any>(pc, &mem) != l { return Err("CPU types disassemble differently".into()); }
    Ok(())
}
/// Whole-address-space inputs and longer ones.
fn c11_big(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let seed = case.h[0];
    let len = [0xFFFF, 0x10000, 0x10001, 0x10007, 0x18000][(case.h[1] % 5) as usize];
    let mem: Vec<u8> = (0..len as u64).map(|i| (mix(seed, i) >> 24) as u8).collect();
    let pc = b16(case.h[1] >> 8);
    let fl = FLS[(seed % 3) as usize];
    ctx.describe(|| format!("{:?} at {:04x}: {} bytes from seed {}", fl, pc, len, seed));
    let c = &mut *ctx;
    with_flavour!(fl, run_disasm, (fl, pc, &mem, seed >> 3, c))
}

/// The listing printed to standard output, seen from outside: this program prints it in a child process.
pub fn print_child(args: &[String]) -> i32 {
    let pc = u16::from_str_radix(&args[1], 16).unwrap();
    let mem: Vec<u8> = (0..args[2].len() / 2).map(|i| u8::from_str_radix(&args[2][2 * i..2 * i + 2], 16).unwrap()).collect();
    match args[0].as_str() {
        "0" => disasm_memory_print_text::<z80emu::Z80NMOS>(pc, &mem), "1" => disasm_memory_print_text::<z80emu::Z80CMOS>(pc, &mem),
        "2" => disasm_memory_print_text::<z80emu::Z80<z80emu::z80::BM1>>(pc, &mem), _ => disasm_memory_print_text::<Z80Any>(pc, &mem),
    }
    0
}
fn c11_print(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mem = bytes_of(case);
    let pc = b16(case.h[0] >> 2);
    let kind = (case.h[0] & 3).to_string();
    ctx.describe(|| format!("print {} at {:04x}: {:02x?}", kind, pc, mem));
    let hex: String = mem.iter().map(|b| format!("{:02x}", b)).collect();
    let me = std::env::current_exe().map_err(|e| e.to_string());
    // a child that cannot be started says nothing about the code under test
    let out = match me.and_then(|p| std::process::Command::new(p).args(["print", &kind, &format!("{:x}", pc), &hex]).output().map_err(|e| e.to_string())) { Ok(o) => o, Err(_) => { ctx.class("child not started"); return Ok(()); } };
    let mut text = String::new();
    disasm_memory_write_text::<z80emu::Z80NMOS, _>(pc, &mem, &mut text).map_err(|_| "write_text failed".to_string())?;
    ctx.nontrivial = text.lines().count() > 1;
    if !out.status.success() { return Err(format!("printing the listing ended with {:?}", out.status)); }
    if out.stdout != text.as_bytes() || !out.stderr.is_empty() { return Err(format!("printed {:?}, the written listing is {:?}", String::from_utf8_lossy(&out.stdout), text)); }
    Ok(())
}

// ---------------------------------------------------------------- C12
fn report(code: &[u8], pc: u16, st: &State, h: &mut TestHost, k: &mut TestClock) -> Option<CpuDebug> {
    let mut cpu: z80emu::Z80NMOS = make(Fl::Nmos, &State { pc, pfx: 0, ei: false, halt: false, ..*st }, false);
    h.reset(HostCfg::default(), false);
    k.reset(0, Cont::default(), false);
    for (i, b) in code.iter().enumerate() { h.poke(pc.wrapping_add(i as u16), *b); }
    let mut got = None;
    for _ in 0..6 { let _ = cpu.execute_next(h, k, Some(|x| got = Some(x))); if got.is_some() { break; } }
    got
}
fn check_text(d: &CpuDebug) -> Result<(), String> {
    for f in FORMATS {
        let line = show(d, f);
        let l = parse_line(&line, f).ok_or_else(|| format!("{:?} form cannot be read back: {:?}", f, line))?;
        if l.pc != d.pc || l.code != d.code.as_slice() { return Err(format!("{:?} form {:?} denotes address {:04x} bytes {:02x?} instead of {:04x} {:02x?}", f, line, l.pc, l.code, d.pc, d.code.as_slice())); }
        let mut ops = l.ops.clone();
        // RST, BIT and IM operands are part of the opcode
        if let Some(Opnd::Num(_)) = ops.first() { if matches!(l.mn.as_str(), "BIT" | "SET" | "RES" | "IM") { if let Opnd::Num(v) = ops[0] { ops[0] = Opnd::Lit(v.to_string()); } } }
        let asm = assemble(&l.mn, &ops, l.pc);
        if !asm.iter().any(|b| b.as_slice() == d.code.as_slice()) { return Err(format!("{:?} form {:?} re-assembles to {:02x?}, not {:02x?}", f, line, asm, d.code.as_slice())); }
        let exp = expected_line(d, f);
        if line != exp { return Err(format!("{:?} form is {:?}, expected {:?}", f, line, exp)); }
        // operands alone, plain and padded to a width of one's own
        let t = args_text(&d.args, f);
        let (plain, wide, narrow) = match f {
            Num::Dec => (format!("{}", d.args), format!("{:20}", d.args), format!("{:>2}", d.args)),
            Num::Hex { upper: false, alt: false } => (format!("{:x}", d.args), format!("{:20x}", d.args), format!("{:>2x}", d.args)),
            Num::Hex { upper: true, alt: false } => (format!("{:X}", d.args), format!("{:20X}", d.args), format!("{:>2X}", d.args)),
            Num::Hex { upper: false, alt: true } => (format!("{:#x}", d.args), format!("{:#20x}", d.args), format!("{:>#2x}", d.args)),
            Num::Hex { upper: true, alt: true } => (format!("{:#X}", d.args), format!("{:#20X}", d.args), format!("{:>#2X}", d.args)),
        };
        if plain != t || wide != format!("{:<20}", t) || narrow != format!("{:>2}", t) { return Err(format!("operands {:?} {:?} {:?}, expected {:?}", plain, wide, narrow, t)); }
    }
    Ok(())
}
fn c12_case(code: &[u8], pc: u16, st: &State, ctx: &mut Ctx) -> Result<(), String> {
    ctx.h1.reset(HostCfg::default(), false);
    for (i, b) in code.iter().enumerate() { ctx.h1.poke(pc.wrapping_add(i as u16), *b); }
    let mem: Vec<u8> = (0..10).map(|i| ctx.h1.peek(pc.wrapping_add(i))).collect();
    match report(code, pc, st, &mut ctx.h1, &mut ctx.c1) {
        None => return Err("no report".into()),
        Some(d) => {
            check_text(&d)?;
            // and the text belongs to the bytes which were there
            let at = d.pc.wrapping_sub(pc) as usize;
            if at > 4 || mem[at..at + d.code.len()] != d.code[..] || mem[..at].iter().any(|b| !matches!(b, 0xDD | 0xFD)) { return Err(format!("report {:?} of {:02x?} at {:04x}", d, mem, pc)); }
        }
    }
    ctx.nontrivial = true;
    Ok(())
}
fn c12_rand(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let st = t.state();
    let code = opcode(&mut t);
    let pc = t.b16();
    ctx.describe(|| format!("code {:02x?} at {:04x}", code, pc));
    c12_case(&code, pc, &st, ctx)
}
fn c12_count(thorough: bool) -> u64 { TABLES * 256 * 256 * if thorough { 256 } else { 1 } }
fn c12_get(i: u64) -> Case { Case { h: vec![i], ops: vec![] } }
fn c12_enum(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let i = case.h[0];
    let (op, d, table, k) = (i as u8, (i >> 8) as u8, (i >> 16) % TABLES, (i >> 16) / TABLES);
    let h = mix(i, 99);
    let code = encode(table, op, d, if table == 0 || table == 2 { d } else { h as u8 ^ k as u8 }, (h >> 8) as u8);
    let pc = (h >> 16) as u16;
    ctx.describe(|| format!("code {:02x?} at {:04x}", code, pc));
    ctx.sig = Some(mix(i, 5));
    let st = State { af: (h >> 32) as u16, bc: (h >> 48) as u16, ..State::default() };
    c12_case(&code, pc, &st, ctx)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C04", parts: vec![
                Part { name: "one instruction", nh: HIST_W + 3, max_ops: 0, quick: 3_000_000, thorough: 200_000_000, run: c04_one, enumerate: None },
                Part { name: "histories", nh: HIST_W, max_ops: 40, quick: 800_000, thorough: 50_000_000, run: c04_hist, enumerate: None }],
            rule: "a case executes one instruction (with its prefixes) or a history of API operations on two equal CPUs, one with a debug closure, compares them and re-assembles every report; non-trivial: an instruction was reported (histories: more than 2)",
            assumptions: &["Memory::read_debug returns what the CPU would read", "for injected opcodes (execute_instruction, interrupts) the reported address is not checked"] },
        Prop { id: "C11", parts: vec![
                Part { name: "byte strings", nh: 2, max_ops: 24, quick: 400_000, thorough: 30_000_000, run: c11_bytes, enumerate: None },
                Part { name: "whole memory", nh: 2, max_ops: 0, quick: 100, thorough: 10_000, run: c11_big, enumerate: None },
                Part { name: "printed listing", nh: 1, max_ops: 16, quick: 300, thorough: 5_000, run: c11_print, enumerate: None }],
            rule: "a case is a byte string (whole, prefixed, truncated and random instructions) and a start address; non-trivial: more than one instruction reported", assumptions: &[] },
        Prop { id: "C12", parts: vec![
                Part { name: "every encoding", nh: 1, max_ops: 0, quick: 0, thorough: 0, run: c12_enum, enumerate: Some((c12_count, c12_get)) },
                Part { name: "random", nh: Tape::STATE_W + 3, max_ops: 0, quick: 1_000_000, thorough: 100_000_000, run: c12_rand, enumerate: None }],
            rule: "a case is one encoding with operand bytes, reported by a debugger and formatted in five forms; every reported case is non-trivial", assumptions: &[] },
    ]
}
