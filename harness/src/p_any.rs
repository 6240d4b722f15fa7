//! C15 (flavours differ only where documented), C16 (Z80Any = the CPU it wraps), C17 (register file).
use crate::hist::*;
use crate::host::*;
use crate::model::Out;
use crate::monitor::Monitor;
use crate::p_instr::*;
use crate::runner::*;
use crate::state::*;
use crate::tape::*;
use crate::with_flavour;
use std::fmt::Debug;
use z80emu::z80::{Flavour, BM1, CMOS, NMOS};
use z80emu::{Cpu, CpuDebug, CpuFlags, Prefix, Reg8, RegisterPair, StkReg16, Z80Any, Z80};

const BUDGET: u64 = 100_000;

// ---------------------------------------------------------------- C15
fn patched<C: Cpu + CpuX>(c: &C, like: &State, f_mask: u8, wz: bool) -> State {
    let s = read_state(c);
    State { af: s.af & !(f_mask as u16) | like.af & f_mask as u16, wz: if wz { like.wz } else { s.wz }, ..s }
}

fn c15(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let s = setup(&mut t);
    const MIX: Mix = [10, 3, 3, 2, 1, 8, 2];
    let mut ops: Vec<HOp> = Vec::new();
    const SPECIAL: &[&[u8]] = &[&[0x37], &[0x3F], &[0xED, 0x71], &[0x32, 0x34, 0x12], &[0x02], &[0x12], &[0xD3, 0x7F], &[0xED, 0x57], &[0xED, 0x5F], &[0xDD, 0x37], &[0xFD, 0x3F],
        &[0xDD, 0x32, 0xFF, 0x10], &[0xFD, 0xD3, 0xFF], &[0xDD, 0xED, 0x71], &[0xFD, 0xED, 0x57], &[0xB7], &[0xF1], &[0x08], &[0xAF], &[0x3C], &[0xFB], &[0xF3], &[0xCB, 0x46], &[0xDD, 0x12], &[0xED, 0xA3], &[0xED, 0xB0], &[0x22, 1, 2], &[0xED, 0x43, 3, 4]];
    for w in &case.ops {
        if w & 1 == 0 { ops.push(HOp::Place(SPECIAL[(w >> 1) as usize % SPECIAL.len()].to_vec())); ops.push(if w >> 9 & 1 == 0 { HOp::Step } else { HOp::Run(1) }); }
        else { ops.push(match hop(w >> 1, &MIX) { HOp::Run(_) => HOp::Run(1), o => o }); }
    }
    ctx.describe(|| format!("{:x?} ops {:x?}", s, ops));
    let mut n: Z80<NMOS> = make(Fl::Nmos, &s.st, s.q);
    let Ctx { h1, c1, h2, c2, h3, c3, .. } = ctx;
    for (h, c) in [(&mut *h1, &mut *c1), (&mut *h2, &mut *c2), (&mut *h3, &mut *c3)] { h.reset(s.cfg, true); c.reset(s.t0, s.cont, true); h.budget = BUDGET; c.budget = BUDGET; }
    let (mut seen_scf, mut seen_out, mut seen_wz, mut seen_ldai) = (0u64, 0u64, 0u64, 0u64);
    let mut skipped = 0u64;
    for (i, op) in ops.iter().enumerate() {
        let st = read_state(&n);
        if !allowed(op, &st) { skipped += 1; continue; }
        let (t0, acks0, fetches0) = (c1.t, h1.acks, h1.fetches);
        let mut c: Z80<CMOS> = n.clone().into_flavour();
        let mut b: Z80<BM1> = n.clone().into_flavour();
        if read_state(&c) != st || read_state(&b) != st { return Err(format!("conversion from NMOS changed the state: CMOS{} BM1{}", read_state(&c).diff(&st), read_state(&b).diff(&st))); }
        for (h, k) in [(&mut *h1, &mut *c1), (&mut *h2, &mut *c2), (&mut *h3, &mut *c3)] { clear_events(h, k); }
        let rn = apply(op, &mut n, h1, c1);
        let rc = apply(op, &mut c, h2, c2);
        let rb = apply(op, &mut b, h3, c3);
        let at = |m: String| format!("op {} {:x?} from {:x?}: {}", i, op, st, m);
        let acc = match &rn { OpRes::Irq(x) => x.is_some(), OpRes::Nmi(x) => *x, _ => true };
        // an operation that executed more than one instruction (which none should) is not this property's concern
        let mut mon = Monitor::new(&st);
        (mon.acks, mon.fetches) = (acks0, fetches0);
        let _ = mon.op(op, acc, &s.cfg, t0, &c1.ev, &h1.ev.borrow());
        if mon.op_instr + (mon.op_ack > 0 && mon.im_acked != 0) as u64 > 1 { return Ok(()); }
        // which instruction was that?
        let (mut c0, mut c1_) = (None, None);
        {
            let ev = h1.ev.borrow();
            let mut it = ev.iter().filter(|e| matches!(e.k, BK::Op | BK::IrqData));
            let mut next = || it.next().copied();
            match op {
                HOp::Exec(code) => { c0 = Some(*code); c1_ = next().map(|e| e.val as u8); }
                HOp::Step | HOp::Run(_) | HOp::Irq => if let Some(e) = next() {
                    if e.k == BK::Op || st.im == 0 { c0 = Some(e.val as u8); c1_ = next().map(|e| e.val as u8); }
                },
                _ => {}
            }
        }
        let scf = matches!(c0, Some(0x37 | 0x3F));
        let out_const = c0 == Some(0xED) && c1_ == Some(0x71);
        let mix_wz = matches!(c0, Some(0x02 | 0x12 | 0x32 | 0xD3));
        // an acknowledge in this very operation has cleared both flip-flops before the injected instruction ran
        let acked = h1.ev.borrow().iter().any(|e| e.k == BK::IrqData);
        let accepting = st.iff1 && !acked && h1.irq_active(c1.t);
        let ld_a_ir = c0 == Some(0xED) && matches!(c1_, Some(0x57 | 0x5F)) && accepting;
        seen_scf += scf as u64; seen_out += out_const as u64; seen_wz += mix_wz as u64; seen_ldai += ld_a_ir as u64;
        // results and bus traffic
        if rn != rc || rn != rb { return Err(at(format!("results NMOS {:?} CMOS {:?} BM1 {:?}", rn, rc, rb))); }
        for (h, k, name, val) in [(&*h2, &*c2, "CMOS", 0xFF), (&*h3, &*c3, "BM1", 0x00)] {
            if k.ev != c1.ev { return Err(at(format!("machine cycles NMOS {:x?} {} {:x?}", c1.ev, name, k.ev))); }
            let (x, y) = (h1.ev.borrow(), h.ev.borrow());
            let same = x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| {
                if out_const && p.k == BK::Out { p.val == 0 && q.val == val && BEv { val: q.val, ..*p } == *q } else { p == q }
            });
            if !same { return Err(at(format!("bus accesses NMOS {:x?} {} {:x?}", x, name, y))); }
        }
        // state
        let sn = read_state(&n);
        let f_cmos = if scf { 0x28 } else { 0 } | if ld_a_ir { 0x04 } else { 0 };
        let pc = patched(&c, &sn, f_cmos, false);
        if pc != sn { return Err(at(format!("NMOS/CMOS:{}", sn.diff(&pc)))); }
        let pb = patched(&b, &sn, if ld_a_ir { 0x04 } else { 0 }, mix_wz);
        if pb != sn { return Err(at(format!("NMOS/BM1:{}", sn.diff(&pb)))); }
        if scf && c.get_flags().bits() & 0x28 != c.get_acc() & 0x28 { return Err(at(format!("CMOS SCF/CCF flags {:02x} with A={:02x}", c.get_flags().bits(), c.get_acc()))); }
        if mix_wz {
            let acc = (st.af >> 8) as u8;
            let (w, wb) = (n.memptr(), b.memptr());
            if w >> 8 != acc as u16 || wb >> 8 != 0 || wb & 255 != w & 255 { return Err(at(format!("MEMPTR NMOS {:04x} BM1 {:04x} with A={:02x}", w, wb, acc))); }
        }
        if ld_a_ir {
            let v = if st.iff2 { 4 } else { 0 };
            let (fn_, fc, fb) = (n.get_flags().bits() & 4, c.get_flags().bits() & 4, b.get_flags().bits() & 4);
            if (fn_, fc, fb) != (0, v, v) { return Err(at(format!("P/V after LD A,I/R with an interrupt being accepted: NMOS {} CMOS {} BM1 {} with IFF2={}", fn_, fc, fb, st.iff2))); }
        }
        // the hidden state agrees too: converting back gives the same CPU
        let mut back: Z80<NMOS> = b.into_flavour();
        back.set_memptr(sn.wz); back.set_flags(CpuFlags::from_bits_retain(sn.af as u8));
        if back != n { return Err(at(format!("BM1 converted back {:?} != NMOS {:?}", back, n))); }
        let mut lossy: Z80<CMOS> = n.clone().into_flavour();
        lossy.set_flags(c.get_flags());
        if lossy != c { return Err(at(format!("NMOS converted {:?} != CMOS {:?}", lossy, c))); }
    }
    if skipped as usize == ops.len() && !ops.is_empty() { ctx.class("all operations skipped"); }
    let f = ctx.h1.fetches;
    ctx.nontrivial = f >= 2;
    ctx.class_if(seen_scf > 0, "SCF/CCF"); ctx.class_if(seen_out > 0, "OUT (C),(HL)"); ctx.class_if(seen_wz > 0, "MEMPTR group"); ctx.class_if(seen_ldai > 0, "LD A,I/R while accepting");
    Ok(())
}

/// Whole runs: identical on the three flavours up to the first opcode that may differ.
fn c15_runs(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let s = setup(&mut t);
    const MIX: Mix = [2, 10, 1, 2, 1, 6, 1];
    let ops: Vec<HOp> = case.ops.iter().map(|w| hop(*w, &MIX)).collect();
    ctx.describe(|| format!("runs {:x?} ops {:x?}", s, ops));
    let mut n: Z80<NMOS> = make(Fl::Nmos, &s.st, s.q);
    let mut c: Z80<CMOS> = n.clone().into_flavour();
    let mut b: Z80<BM1> = n.clone().into_flavour();
    let Ctx { h1, c1, h2, c2, h3, c3, .. } = ctx;
    for (h, c) in [(&mut *h1, &mut *c1), (&mut *h2, &mut *c2), (&mut *h3, &mut *c3)] { h.reset(s.cfg, true); c.reset(s.t0, s.cont, true); h.budget = BUDGET; c.budget = BUDGET; }
    let mut stopped = false;
    for (i, op) in ops.iter().enumerate() {
        let st = read_state(&n);
        if !allowed(op, &st) { continue; }
        // an injected opcode does not show on the bus
        if matches!(op, HOp::Exec(0x02 | 0x12 | 0x32 | 0x37 | 0x3F | 0x57 | 0x5F | 0x71 | 0xD3)) { continue; }
        for (h, k) in [(&mut *h1, &mut *c1), (&mut *h2, &mut *c2), (&mut *h3, &mut *c3)] { clear_events(h, k); }
        let rn = apply(op, &mut n, h1, c1);
        let rc = apply(op, &mut c, h2, c2);
        let rb = apply(op, &mut b, h3, c3);
        let at = |m: String| format!("op {} {:x?} from {:x?}: {}", i, op, st, m);
        // SCF, CCF, OUT (C),(HL), LD (nn|BC|DE),A, OUT (n),A, LD A,I, LD A,R: everything after one of these bytes is left to the other part
        let cut = h1.ev.borrow().iter().position(|e| matches!(e.k, BK::Op | BK::IrqData) && matches!(e.val as u8, 0x02 | 0x12 | 0x32 | 0x37 | 0x3F | 0x57 | 0x5F | 0x71 | 0xD3));
        for (h, name) in [(&*h2, "CMOS"), (&*h3, "BM1")] {
            let (x, y) = (h1.ev.borrow(), h.ev.borrow());
            let m = match cut { Some(p) => p + 1, None => x.len().max(y.len()) };
            if let Some(j) = (0..m).find(|&j| x.get(j) != y.get(j)) { return Err(at(format!("bus access {}: NMOS {:x?} {} {:x?}", j, x.get(j), name, y.get(j)))); }
        }
        if cut.is_some() { stopped = true; break; }
        if rn != rc || rn != rb { return Err(at(format!("results NMOS {:?} CMOS {:?} BM1 {:?}", rn, rc, rb))); }
        if c1.ev != c2.ev || c1.ev != c3.ev { return Err(at("machine cycles differ".into())); }
        let (x, y, z) = (read_state(&n), read_state(&c), read_state(&b));
        if x != y || x != z { return Err(at(format!("NMOS/CMOS:{} NMOS/BM1:{}", x.diff(&y), x.diff(&z)))); }
        if n.clone().into_flavour::<BM1>() != b || n.clone().into_flavour::<CMOS>() != c { return Err(at(format!("instances differ: {:?} {:?} {:?}", n, c, b))); }
    }
    ctx.nontrivial = ctx.h1.fetches >= 3;
    ctx.class_if(stopped, "stopped at an opcode that may differ");
    ctx.class_if(ctx.h1.fetches >= 10, "10 fetches or more");
    Ok(())
}

/// Conversions of any state, in every order.
fn c15_conv(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let mut st = t.state();
    let m = t.w();
    match m & 7 { 0 => st.ei = true, 1 => st.pfx = 0xDD, 2 => st.pfx = 0xFD, 3 => st.halt = true, _ => {} }
    let q = m & 8 != 0;
    let lazy = (m >> 8) as i32 & 0x3FF;
    ctx.describe(|| format!("q={} add_r({}) {:x?}", q, lazy, st));
    ctx.nontrivial = true;
    let mut n: Z80<NMOS> = make(Fl::Nmos, &st, q);
    let mut c: Z80<CMOS> = make(Fl::Cmos, &st, q);
    let mut b: Z80<BM1> = make(Fl::Bm1, &st, q);
    n.add_r(lazy); c.add_r(lazy); b.add_r(lazy);
    macro_rules! same { ($a:expr, $b:expr, $what:expr) => { if $a != $b { return Err(format!("{}: {:?} != {:?}", $what, $a, $b)); } } }
    same!(n.clone().into_flavour::<BM1>(), b, "NMOS to BM1");
    same!(b.clone().into_flavour::<NMOS>(), n, "BM1 to NMOS");
    same!(Z80::<BM1>::from_flavour(n.clone()), b, "from_flavour NMOS to BM1");
    same!(Z80::<NMOS>::from_flavour(b.clone()), n, "from_flavour BM1 to NMOS");
    same!(n.clone().into_flavour::<CMOS>(), c, "NMOS to CMOS");
    same!(b.clone().into_flavour::<CMOS>(), c, "BM1 to CMOS");
    same!(Z80::<CMOS>::from_flavour(n.clone()), c, "from_flavour NMOS to CMOS");
    same!(n.clone().into_flavour::<NMOS>(), n, "NMOS to NMOS");
    // from CMOS only the flavour's own state is lost
    let cn: Z80<NMOS> = c.clone().into_flavour();
    same!(read_state(&cn), read_state(&c), "CMOS to NMOS");
    let mut n0 = n.clone();
    n0.flavour = Default::default();
    same!(cn, n0, "CMOS to NMOS");
    let mut b0 = b.clone();
    b0.flavour = Default::default();
    same!(c.clone().into_flavour::<BM1>(), b0, "CMOS to BM1");
    same!(cn.clone().into_flavour::<CMOS>(), c, "CMOS to NMOS to CMOS");
    let (an, ac, ab): (Z80Any, Z80Any, Z80Any) = (n.clone().into(), c.clone().into(), b.clone().into());
    same!(an.clone().into_bm1(), ab, "Any into_bm1"); same!(an.clone().into_cmos(), ac, "Any into_cmos"); same!(an.clone().into_nmos(), an, "Any into_nmos");
    same!(ab.clone().into_nmos(), an, "Any BM1 into_nmos"); same!(ab.clone().into_cmos(), ac, "Any BM1 into_cmos"); same!(ab.clone().into_bm1(), ab, "Any BM1 into_bm1");
    same!(ac.clone().into_nmos(), Z80Any::NMOS(n0.clone()), "Any CMOS into_nmos"); same!(ac.clone().into_bm1(), Z80Any::BM1(b0.clone()), "Any CMOS into_bm1"); same!(ac.clone().into_cmos(), ac, "Any CMOS into_cmos");
    same!(Z80::<NMOS>::from(ab.clone()), n, "Z80<NMOS> from Any BM1"); same!(Z80::<BM1>::from(an.clone()), b, "Z80<BM1> from Any NMOS"); same!(Z80::<CMOS>::from(an.clone()), c, "Z80<CMOS> from Any NMOS");
    Ok(())
}

// ---------------------------------------------------------------- accessor operations
#[derive(Clone, Debug, PartialEq)]
enum Acc {
    Pc(u16), Sp(u16), A(u8), F(u8), IncR, AddR(i32), R(u8), I(u8), Iffs(bool, bool), Halt, Im(u8), ExAf, Exx, Reg(u8, u8, u8), Reg2(u8, u8, u8), Reg16(u8, u16),
    Idx2(bool, u8, u8), Idx16(bool, u16), Restore, Di, Ei, Wz(u16), NormR, Reset, Clone,
    /// prefix byte executed, so that a prefix is pending
    Prefix(bool),
}
const REGS: [Reg8; 7] = [Reg8::B, Reg8::C, Reg8::D, Reg8::E, Reg8::H, Reg8::L, Reg8::A];
const STK: [StkReg16; 4] = [StkReg16::BC, StkReg16::DE, StkReg16::HL, StkReg16::AF];
fn pfx(n: u8) -> Option<Prefix> { match n % 3 { 1 => Some(Prefix::Xdd), 2 => Some(Prefix::Yfd), _ => None } }
fn ipx(y: bool) -> Prefix { if y { Prefix::Yfd } else { Prefix::Xdd } }

fn acc_op(w: u64) -> Acc {
    let v = w >> 8;
    let (x, y) = (b8(v >> 8), b8(v >> 28));
    match w & 31 {
        0 => Acc::Pc(b16(v)), 1 => Acc::Sp(b16(v)), 2 => Acc::A(x), 3 => Acc::F(v as u8), 4 => Acc::IncR, 5 => Acc::AddR((v as i32) >> (v >> 32 & 31)), 6 => Acc::R(x), 7 => Acc::I(x),
        8 => Acc::Iffs(v & 1 != 0, v & 2 != 0), 9 => if v & 7 == 0 { Acc::Halt } else { Acc::ExAf }, 10 => Acc::Im(v as u8 % 3), 11 => Acc::ExAf, 12 => Acc::Exx,
        13 | 14 | 15 | 16 => Acc::Reg(v as u8 % 7, (v >> 4) as u8 % 3, x), 17 | 18 => Acc::Reg2(v as u8 & 3, x, y), 19 | 20 => Acc::Reg16(v as u8 & 3, b16(v >> 8)),
        21 => Acc::Idx2(v & 1 != 0, x, y), 22 => Acc::Idx16(v & 1 != 0, b16(v >> 8)), 23 => Acc::Restore, 24 => Acc::Di, 25 => Acc::Ei, 26 => Acc::Wz(b16(v)), 27 => Acc::NormR,
        28 => Acc::Clone, 29 => Acc::Prefix(v & 1 != 0), 30 => Acc::Exx, _ => if v & 3 == 0 { Acc::Reset } else { Acc::IncR },
    }
}

fn acc_apply<C: CpuX + Clone>(a: &Acc, c: &mut C) {
    match *a {
        Acc::Pc(v) => c.set_pc(v), Acc::Sp(v) => c.set_sp(v), Acc::A(v) => c.set_acc(v), Acc::F(v) => c.set_flags(CpuFlags::from_bits_retain(v)), Acc::IncR => c.inc_r(), Acc::AddR(d) => c.add_r(d),
        Acc::R(v) => c.set_r(v), Acc::I(v) => c.set_i(v), Acc::Iffs(a, b) => c.set_iffs(a, b), Acc::Halt => c.halt(), Acc::Im(v) => c.set_im(im_of(v)), Acc::ExAf => c.ex_af_af(), Acc::Exx => c.exx(),
        Acc::Reg(r, p, v) => c.set_reg(REGS[r as usize], pfx(p), v), Acc::Reg2(r, h, l) => c.set_reg2(STK[r as usize], h, l), Acc::Reg16(r, v) => c.set_reg16(STK[r as usize], v),
        Acc::Idx2(y, h, l) => c.set_index2(ipx(y), h, l), Acc::Idx16(y, v) => c.set_index16(ipx(y), v), Acc::Restore => c.restore_iff1(), Acc::Di => c.disable_interrupts(), Acc::Ei => c.enable_interrupts(),
        Acc::Wz(v) => c.put_memptr(v), Acc::NormR => c.norm_r(), Acc::Reset => c.reset(), Acc::Clone => { let d = c.clone(); *c = d; }
        Acc::Prefix(y) => exec_dummy(c, if y { 0xFD } else { 0xDD }),
    }
}

/// Every getter, named.
fn sweep<C: CpuX>(c: &C) -> Vec<(&'static str, u32)> {
    let mut v: Vec<(&'static str, u32)> = Vec::with_capacity(64);
    let t = |p: (u8, u8)| (p.0 as u32) << 8 | p.1 as u32;
    v.push(("get_pc", c.get_pc() as u32)); v.push(("get_sp", c.get_sp() as u32)); v.push(("get_acc", c.get_acc() as u32)); v.push(("get_flags", c.get_flags().bits() as u32));
    v.push(("get_r", c.get_r() as u32)); v.push(("get_i", c.get_i() as u32)); v.push(("get_ir", c.get_ir() as u32));
    let (a, b) = c.get_iffs();
    v.push(("get_iffs", (a as u32) << 1 | b as u32)); v.push(("is_halt", c.is_halt() as u32)); v.push(("get_im", im_no(c.get_im()) as u32));
    for p in 0..3 { for r in REGS { v.push((["get_reg", "get_reg IX", "get_reg IY"][p as usize], c.get_reg(r, pfx(p)) as u32)); } }
    for r in STK { v.push(("get_reg2", t(c.get_reg2(r)))); v.push(("get_alt_reg2", t(c.get_alt_reg2(r)))); v.push(("get_reg16", c.get_reg16(r) as u32)); v.push(("get_alt_reg16", c.get_alt_reg16(r) as u32)); }
    for y in [false, true] { v.push(("get_index2", t(c.get_index2(ipx(y))))); v.push(("get_index16", c.get_index16(ipx(y)) as u32)); }
    v.push(("is_irq_allowed", c.is_irq_allowed() as u32)); v.push(("is_nmi_allowed", c.is_nmi_allowed() as u32)); v.push(("is_after_ei", c.is_after_ei() as u32));
    v.push(("is_after_prefix", c.is_after_prefix() as u32)); v.push(("get_prefix", c.get_prefix().map_or(0, |p| p.to_code() as u32))); v.push(("memptr", c.memptr() as u32));
    v
}

/// The register file as the documentation describes it.
#[derive(Clone, Debug, PartialEq)]
struct File { m: [u16; 4], alt: [u16; 4], ix: [u16; 2], pc: u16, sp: u16, i: u8, r: u8, iffs: (bool, bool), halt: bool, im: u8, ei: bool, pfx: u8, wz: u16 }
impl File {
    fn of(s: &State) -> File {
        File { m: [s.bc, s.de, s.hl, s.af], alt: [s.bc2, s.de2, s.hl2, s.af2], ix: [s.ix, s.iy], pc: s.pc, sp: s.sp, i: s.i, r: s.r, iffs: (s.iff1, s.iff2), halt: s.halt, im: s.im, ei: s.ei, pfx: s.pfx, wz: s.wz }
    }
    fn half(&mut self, r: u8, p: u8) -> (&mut u16, bool) {
        match (r, p) { (4 | 5, 1) => (&mut self.ix[0], r == 4), (4 | 5, 2) => (&mut self.ix[1], r == 4), (6, _) => (&mut self.m[3], true), _ => (&mut self.m[r as usize / 2], r & 1 == 0) }
    }
    fn apply(&mut self, a: &Acc) {
        let mk = |h: u8, l: u8| (h as u16) << 8 | l as u16;
        match *a {
            Acc::Pc(v) => self.pc = v, Acc::Sp(v) => self.sp = v, Acc::A(v) => self.m[3] = mk(v, self.m[3] as u8), Acc::F(v) => self.m[3] = self.m[3] & 0xFF00 | v as u16,
            Acc::IncR => self.r = self.r & 0x80 | self.r.wrapping_add(1) & 0x7F, Acc::AddR(d) => self.r = self.r & 0x80 | (self.r as i64 + d as i64).rem_euclid(128) as u8,
            Acc::R(v) => self.r = v, Acc::I(v) => self.i = v, Acc::Iffs(a, b) => self.iffs = (a, b), Acc::Halt => self.halt = true, Acc::Im(v) => self.im = v,
            Acc::ExAf => std::mem::swap(&mut self.m[3], &mut self.alt[3]), Acc::Exx => for i in 0..3 { std::mem::swap(&mut self.m[i], &mut self.alt[i]) },
            Acc::Reg(r, p, v) => { let (x, hi) = self.half(r, p); *x = if hi { *x & 0xFF | (v as u16) << 8 } else { *x & 0xFF00 | v as u16 } }
            Acc::Reg2(r, h, l) => self.m[r as usize] = mk(h, l), Acc::Reg16(r, v) => self.m[r as usize] = v, Acc::Idx2(y, h, l) => self.ix[y as usize] = mk(h, l), Acc::Idx16(y, v) => self.ix[y as usize] = v,
            Acc::Restore => self.iffs.0 = self.iffs.1, Acc::Di => self.iffs = (false, false), Acc::Ei => { self.iffs = (true, true); self.ei = true }
            Acc::Wz(v) => self.wz = v, Acc::NormR | Acc::Clone => {}
            Acc::Reset => *self = File { m: [0, 0, 0, 0xFFFF], alt: [0, 0, 0, 0xFFFF], ix: [0, 0], pc: 0, sp: 0xFFFF, i: 0, r: 0, iffs: (false, false), halt: false, im: 0, ei: false, pfx: 0, wz: 0 },
            Acc::Prefix(y) => { self.pfx = if y { 0xFD } else { 0xDD }; self.ei = false; self.halt = false }
        }
    }
    fn sweep(&mut self) -> Vec<u32> {
        let mut v = vec![self.pc as u32, self.sp as u32, (self.m[3] >> 8) as u32, self.m[3] as u8 as u32, self.r as u32, self.i as u32, (self.i as u32) << 8 | self.r as u32,
            (self.iffs.0 as u32) << 1 | self.iffs.1 as u32, self.halt as u32, self.im as u32];
        for p in 0..3 { for r in 0..7 { let (x, hi) = self.half(r, p); v.push(if hi { *x >> 8 } else { *x & 0xFF } as u32); } }
        for r in 0..4 { for x in [self.m[r], self.alt[r], self.m[r], self.alt[r]] { v.push(x as u32); } }
        for x in self.ix { v.push(x as u32); v.push(x as u32); }
        let free = !self.ei && self.pfx == 0;
        v.extend([(self.iffs.0 && free) as u32, free as u32, self.ei as u32, (self.pfx != 0) as u32, self.pfx as u32, self.wz as u32]);
        v
    }
}

fn run_c17<C: CpuX + Clone + Debug>(fl: Fl, st: &State, q: bool, ops: &[Acc]) -> Result<(), String> {
    let mut c: C = make(fl, st, q);
    let mut f = File::of(st);
    // the order of this list is that of STK in sweep: get_reg2, get_alt_reg2, get_reg16, get_alt_reg16
    for (i, op) in ops.iter().enumerate() {
        let before = f.clone();
        let (pc0, r0) = (c.get_pc(), c.get_r());
        acc_apply(op, &mut c);
        f.apply(op);
        if let Acc::Prefix(_) = op {
            // executing the prefix byte moved PC and R in ways other properties decide
            let _ = (pc0, r0);
            f.pc = c.get_pc(); f.r = c.get_r();
        }
        let got = sweep(&c);
        let want = f.sweep();
        if got.len() != want.len() { return Err("sweep length".into()); }
        for (g, w) in got.iter().zip(want.iter()) {
            if g.1 != *w { return Err(format!("op {} {:x?} on {:x?}: {} is {:x}, expected {:x}", i, op, before, g.0, g.1, w)); }
        }
        if *op == Acc::Reset {
            let fresh = C::fresh(fl);
            if c != fresh { return Err(format!("op {}: after reset {:?}, a new CPU is {:?}", i, c, fresh)); }
            let fs = read_state(&fresh);
            if File::of(&fs) != f { return Err(format!("a new CPU reads {:x?}", fs)); }
        }
    }
    // printing a CPU always works
    if ops.len() % 8 == 7 && !format!("{:?}", c).contains("Z80") { return Err("the debug form does not name the CPU".into()); }
    // two CPUs brought to the same state compare equal
    let s = read_state(&c);
    if s.pfx == 0 {
        let mut d: C = make(fl, &s, false);
        let mut e: C = make(fl, st, q);
        put_state(&mut e, &s, false);
        if st.pfx == 0 && !st.ei && !st.halt { d.norm_r(); e.norm_r(); if d != e { return Err(format!("same registers, different instances: {:?} {:?}", d, e)); } }
    }
    Ok(())
}

fn c17(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let fl = t.fl();
    let mut st = t.state();
    let m = t.w();
    match m & 7 { 0 => st.ei = true, 1 => st.pfx = 0xDD, 2 => st.pfx = 0xFD, 3 => st.halt = true, _ => {} }
    let ops: Vec<Acc> = case.ops.iter().map(|w| acc_op(*w)).collect();
    ctx.describe(|| format!("{:?} {:x?} ops {:x?}", fl, st, ops));
    ctx.nontrivial = ops.len() >= 3;
    ctx.class_if(ops.contains(&Acc::Reset), "reset"); ctx.class_if(m & 8 != 0, "Z80Any");
    if m & 8 != 0 { run_c17::<Z80Any>(fl, &st, m & 16 != 0, &ops) } else { with_flavour!(fl, run_c17, (fl, &st, m & 16 != 0, &ops)) }
}

/// RegisterPair: h[0] is the value.
fn c17_pair(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let v = case.h[0] as u16;
    let z = mix(v as u64, 5);
    let (hi, lo) = ((v >> 8) as u8, v as u8);
    ctx.nontrivial = true;
    ctx.describe(|| format!("{:04x}", v));
    let e = |what: &str, p: RegisterPair| Err(format!("{} on {:04x} gives {:?}", what, v, p));
    let p = RegisterPair::from(v);
    if p.get16() != v || p.get() != (hi, lo) || p.get8hi() != hi || p.get8lo() != lo { return e("get", p); }
    for q in [RegisterPair::from(v as i16), RegisterPair::from([lo, hi]), RegisterPair::from((hi, lo))] { if q != p { return e("from", q); } }
    let w = (z >> 8) as u16;
    let mut q = RegisterPair::from(w);
    q.set16(v); if q != p { return e("set16", q); }
    q = RegisterPair::from(w); q.set(hi, lo); if q != p { return e("set", q); }
    q = RegisterPair::from(w); q.set8hi(hi); if q.get16() != v & 0xFF00 | w & 0xFF { return e("set8hi", q); }
    q = RegisterPair::from(w); q.set8lo(lo); if q.get16() != w & 0xFF00 | v & 0xFF { return e("set8lo", q); }
    q = p; q.inc16(); if q.get16() != v.wrapping_add(1) { return e("inc16", q); }
    q = p; q.dec16(); if q.get16() != v.wrapping_sub(1) { return e("dec16", q); }
    q = p; let b = q.dec16_is_zero(); if q.get16() != v.wrapping_sub(1) || b != (v == 1) { return e("dec16_is_zero", q); }
    q = p; q.add16(w); if q.get16() != v.wrapping_add(w) { return e("add16", q); }
    q = p; let mut seen = 0; q.op16(|x| { seen = x; ((w >> 8) as u8, w as u8) }); if q.get16() != w || seen != v { return e("op16", q); }
    q = p; let mut seen = 0; q.op8hi(|x| { seen = x; w as u8 }); if q.get() != (w as u8, lo) || seen != hi { return e("op8hi", q); }
    q = p; let mut seen = 0; q.op8lo(|x| { seen = x; w as u8 }); if q.get() != (hi, w as u8) || seen != lo { return e("op8lo", q); }
    Ok(())
}

// ---------------------------------------------------------------- C16
#[derive(Clone, Debug)]
enum AnyOp { H(HOp, bool), A(Acc) }

fn show(d: CpuDebug) -> String { format!("{} {:X} {:?}", d, d, d.code) }

fn apply_any<C: CpuX + Clone>(op: &AnyOp, c: &mut C, h: &mut TestHost, k: &mut TestClock, log: &mut Vec<String>) -> OpRes {
    match op {
        AnyOp::A(a) => { acc_apply(a, c); OpRes::None }
        AnyOp::H(op, false) => apply(op, c, h, k),
        AnyOp::H(op, true) => {
            let mut f = |d: CpuDebug| log.push(show(d));
            match op {
                HOp::Step => OpRes::Out(out_of(c.execute_next(h, k, Some(&mut f)))),
                HOp::Exec(code) => OpRes::Out(out_of(c.execute_instruction(h, k, Some(&mut f), *code))),
                HOp::Irq => OpRes::Irq(c.irq(h, k, Some(&mut f)).map(out_of)),
                _ => apply(op, c, h, k),
            }
        }
    }
}

fn any_allowed(op: &AnyOp, s: &State) -> bool {
    match op {
        AnyOp::H(o, _) => allowed(o, s),
        AnyOp::A(Acc::Ei) => !s.halt && s.pfx == 0,
        AnyOp::A(Acc::Halt) => !s.ei && s.pfx == 0,
        _ => true,
    }
}

fn run_c16<C: CpuX + Clone + Debug + Into<Z80Any> + From<Z80Any>>(s: &Setup, wrap: bool, ops: &[AnyOp], ctx: &mut Ctx) -> Result<(), String> {
    let mut a: C = make(s.fl, &s.st, s.q);
    let mut b: Z80Any = if wrap { a.clone().into() } else { make(s.fl, &s.st, s.q) };
    let Ctx { h1, c1, h2, c2, .. } = ctx;
    for (h, c) in [(&mut *h1, &mut *c1), (&mut *h2, &mut *c2)] { h.reset(s.cfg, true); c.reset(s.t0, s.cont, true); h.budget = BUDGET; c.budget = BUDGET; }
    let tag = match s.fl { Fl::Nmos => "NMOS", Fl::Cmos => "CMOS", Fl::Bm1 => "BM1" };
    for (n, op) in ops.iter().enumerate() {
        let st = read_state(&a);
        if !any_allowed(op, &st) { continue; }
        clear_events(h1, c1); clear_events(h2, c2);
        let (mut l1, mut l2) = (Vec::new(), Vec::new());
        let r1 = apply_any(op, &mut a, h1, c1, &mut l1);
        let r2 = apply_any(op, &mut b, h2, c2, &mut l2);
        let at = |m: String| format!("op {} {:x?} from {:x?}: {}", n, op, st, m);
        if r1 != r2 { return Err(at(format!("result Z80 {:?} Z80Any {:?}", r1, r2))); }
        if l1 != l2 { return Err(at(format!("debug reports Z80 {:?} Z80Any {:?}", l1, l2))); }
        let (x, y) = (sweep(&a), sweep(&b));
        if let Some((p, q)) = x.iter().zip(y.iter()).find(|(p, q)| p != q) { return Err(at(format!("{} Z80 {:x} Z80Any {:x}", p.0, p.1, q.1))); }
        if let Some(d) = diff_trace(h2, c2, h1, c1) { return Err(at(format!("(cpu: Z80Any, reference: Z80) {}", d))); }
        if b.tag() != tag || b.to_string() != tag || (b.is_nmos(), b.is_cmos(), b.is_bm1()) != (s.fl == Fl::Nmos, s.fl == Fl::Cmos, s.fl == Fl::Bm1) { return Err(at(format!("variant is {} {}", b.tag(), b))); }
        let w: Z80Any = a.clone().into();
        if w != b { return Err(at(format!("wrapped {:?} != {:?}", w, b))); }
        let u: C = b.clone().into();
        if u != a { return Err(at(format!("unwrapped {:?} != {:?}", u, a))); }
    }
    if let Some(x) = h1.mem_equal(h2) { return Err(format!("memory differs at {:04x}", x)); }
    // unwrapping gives the same, or panics for the other variants
    let un = std::panic::catch_unwind(|| b.clone().unwrap_nmos());
    let uc = std::panic::catch_unwind(|| b.clone().unwrap_cmos());
    let ub = std::panic::catch_unwind(|| b.clone().unwrap_bm1());
    if (un.is_ok(), uc.is_ok(), ub.is_ok()) != (s.fl == Fl::Nmos, s.fl == Fl::Cmos, s.fl == Fl::Bm1) { return Err("unwrap_* accepts the wrong variant".into()); }
    let again: Z80Any = if let Ok(c) = un { c.into() } else if let Ok(c) = uc { c.into() } else { ub.unwrap().into() };
    if again != b { return Err(format!("unwrap_* gives {:?} for {:?}", again, b)); }
    conversions(&b)
}

/// The flavour conversions of a Z80Any are those of the CPU inside.
fn conversions(b: &Z80Any) -> Result<(), String> {
    fn all<Q: Flavour>(c: &Z80<Q>) -> (Z80<NMOS>, Z80<CMOS>, Z80<BM1>) where NMOS: From<Q>, CMOS: From<Q>, BM1: From<Q> {
        (c.clone().into_flavour(), c.clone().into_flavour(), c.clone().into_flavour())
    }
    let (n, c, m) = match b { Z80Any::NMOS(c) => all(c), Z80Any::CMOS(c) => all(c), Z80Any::BM1(c) => all(c) };
    let (tn, tc, tm): (Z80<NMOS>, Z80<CMOS>, Z80<BM1>) = (b.clone().into(), b.clone().into(), b.clone().into());
    for (what, x, y, z) in [("into_nmos", b.clone().into_nmos(), Z80Any::NMOS(n), Z80Any::from(tn)), ("into_cmos", b.clone().into_cmos(), Z80Any::CMOS(c), Z80Any::from(tc)), ("into_bm1", b.clone().into_bm1(), Z80Any::BM1(m), Z80Any::from(tm))] {
        if x != y || x != z { return Err(format!("{} of {:?}: {:?}, the CPU inside converts to {:?}, From gives {:?}", what, b, x, y, z)); }
        if x.tag() != y.tag() || !what.ends_with(&x.tag().to_ascii_lowercase()) { return Err(format!("{} of {:?} gives {:?}", what, b, x)); }
    }
    Ok(())
}

fn c16(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let s = setup(&mut t);
    let w = t.w();
    const MIX: Mix = [10, 4, 3, 3, 2, 6, 3];
    let ops: Vec<AnyOp> = case.ops.iter().map(|w| if w & 3 == 0 { AnyOp::A(acc_op(w >> 2)) } else { AnyOp::H(hop(w >> 3, &MIX), w & 4 != 0) }).collect();
    ctx.describe(|| format!("wrap={} {:x?} ops {:x?}", w & 1, s, ops));
    { let t = &mut *ctx; with_flavour!(s.fl, run_c16, (&s, w & 1 != 0, &ops, t))?; }
    let f = ctx.h1.fetches;
    ctx.nontrivial = f >= 2 && ops.len() >= 3;
    let (acks, nmi) = (ctx.h1.acks, ops.iter().any(|o| matches!(o, AnyOp::H(HOp::Nmi, _))));
    ctx.class_if(acks > 0, "interrupt acknowledged"); ctx.class_if(nmi, "NMI requested");
    Ok(())
}

/// Tag lookup. The words spell the name.
fn c16_tags(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let w = case.h[0];
    let base = ["NMOS", "CMOS", "BM1"][(w % 3) as usize];
    let mut s: Vec<char> = base.chars().enumerate().map(|(i, c)| if w >> (8 + i) & 1 != 0 { c.to_ascii_lowercase() } else { c }).collect();
    let mut valid = true;
    const ODD: &[char] = &[' ', '0', 'S', 's', 'ſ', 'İ', 'N', '\0', 'm', '1', '2', 'O', 'С', '\u{212a}', 'Μ'];
    for z in &case.ops {
        let o = ODD[(z >> 4) as usize % ODD.len()];
        let at = (z >> 16) as usize;
        match z & 3 { 0 => { let i = at % (s.len() + 1); s.insert(i, o) } 1 => if !s.is_empty() { let i = at % s.len(); s.remove(i); }, 2 => if !s.is_empty() { let i = at % s.len(); s[i] = o }, _ => if !s.is_empty() { let i = at % s.len(); s[i] = s[i].to_ascii_lowercase() } }
    }
    let name: String = s.into_iter().collect();
    let up: String = name.chars().map(|c| if c.is_ascii() { c.to_ascii_uppercase() } else { c }).collect();
    if !["NMOS", "CMOS", "BM1"].contains(&up.as_str()) { valid = false; }
    ctx.nontrivial = true;
    ctx.class(if valid { "known" } else { "unknown" });
    ctx.describe(|| format!("{:?}", name));
    match (Z80Any::with_tag(&name), valid) {
        (None, false) => Ok(()),
        (Some(c), true) => {
            let want = match up.as_str() { "NMOS" => Z80Any::new_nmos(), "CMOS" => Z80Any::new_cmos(), _ => Z80Any::new_bm1() };
            if c != want || c.tag() != up || format!("{}", c) != up { return Err(format!("with_tag({:?}) gives {:?} with tag {}", name, c, c.tag())); }
            let fresh: Z80Any = match up.as_str() { "NMOS" => Z80::<NMOS>::new().into(), "CMOS" => Z80::<CMOS>::new().into(), _ => Z80::<BM1>::new().into() };
            if fresh != c { return Err(format!("with_tag({:?}) is not a CPU after reset: {:?}", name, c)); }
            if !Z80Any::default().is_nmos() { return Err("the default is not NMOS".into()); }
            Ok(())
        }
        (r, _) => Err(format!("with_tag({:?}) gives {:?}", name, r)),
    }
}

pub fn props() -> Vec<Prop> {
    let _ = Out::Ok;
    vec![
        Prop {
            id: "C15",
            parts: vec![
                Part { name: "same steps on three flavours", nh: HIST_W, max_ops: 20, quick: 5_000_000, thorough: 120_000_000, run: c15, enumerate: None },
                Part { name: "runs on three flavours", nh: HIST_W, max_ops: 12, quick: 2_000_000, thorough: 100_000_000, run: c15_runs, enumerate: None },
                Part { name: "conversions", nh: Tape::STATE_W + 1, max_ops: 0, quick: 400_000, thorough: 20_000_000, run: c15_conv, enumerate: None },
            ],
            rule: "a case is a history whose every operation is applied to an NMOS CPU and to its CMOS and BM1 conversions, half of the operations at an instruction named by an exception; non-trivial: at least 2 opcodes fetched; distinct by generated words",
            assumptions: &["is_irq is a level: a function of the time and of acknowledgements, not of how often it is polled"],
        },
        Prop {
            id: "C16",
            parts: vec![
                Part { name: "histories", nh: HIST_W + 1, max_ops: 30, quick: 1_500_000, thorough: 40_000_000, run: c16, enumerate: None },
                Part { name: "tags", nh: 1, max_ops: 4, quick: 200_000, thorough: 10_000_000, run: c16_tags, enumerate: None },
            ],
            rule: "a case is a history of up to 30 executions, requests and accessor calls on a Z80 and a Z80Any, or a flavour name with up to 4 edits; non-trivial: at least 2 opcodes fetched and 3 operations; distinct by generated words",
            assumptions: &["is_irq is a level: a function of the time and of acknowledgements, not of how often it is polled"],
        },
        Prop {
            id: "C17",
            parts: vec![
                Part { name: "accessor sequences", nh: 1 + Tape::STATE_W + 1, max_ops: 40, quick: 3_000_000, thorough: 120_000_000, run: c17, enumerate: None },
                Part { name: "every register pair", nh: 1, max_ops: 0, quick: 0, thorough: 0, run: c17_pair, enumerate: Some((|_| 65536, |i| Case { h: vec![i], ops: vec![] })) },
            ],
            rule: "a case is an initial state and up to 40 accessor calls, all getters compared with the register model after each; non-trivial: at least 3 calls; distinct by generated words",
            assumptions: &[],
        },
    ]
}
