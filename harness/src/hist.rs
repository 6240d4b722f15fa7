//! Histories of API operations on a CPU, with the reference model's counterpart.
use crate::host::*;
use crate::model::{Model, Out};
use crate::p_instr::{exec, out_of, step, NoDbg};
use crate::state::*;
use crate::tape::*;
use z80emu::CpuFlags;

#[derive(Clone, Debug, PartialEq)]
pub enum HOp {
    Step, Run(u64), Exec(u8), Irq, Nmi, Reset, Ei, Di, RestoreIff, SetIm(u8), SetIffs(bool, bool), SetI(u8), SetR(u8), AddR(i32), Halt,
    /// place an encoding at PC
    Place(Vec<u8>),
    SetPc(u16), SetSp(u16), SetAf(u16), ExAf, Exx,
}

/// op weights: step, run, exec, irq, nmi, place, api (out of their sum)
pub type Mix = [u64; 7];
pub const MIX_ALL: Mix = [8, 6, 2, 2, 1, 8, 2];

pub fn hop(w: u64, mix_: &Mix) -> HOp {
    let total: u64 = mix_.iter().sum();
    let mut s = (w & 0xFFF) % total;
    let v = w >> 12;
    let mut k = 0;
    while s >= mix_[k] { s -= mix_[k]; k += 1; }
    match k {
        0 => HOp::Step,
        1 => HOp::Run(match v & 3 { 0 => (v >> 2) % 12, 1 => (v >> 2) % 60, _ => (v >> 2) % 500 }),
        2 => HOp::Exec(if v & 1 == 0 { [0xFB, 0xDD, 0xFD, 0xF3, 0x76, 0xED, 0xCB, 0x37, 0x00, 0xD3, 0xC9, 0xFF][(v >> 1) as usize % 12] } else { (v >> 1) as u8 }),
        3 => HOp::Irq,
        4 => HOp::Nmi,
        5 => {
            const CTRL: &[&[u8]] = &[&[0xFB], &[0xF3], &[0x76], &[0xFB, 0x76], &[0xED, 0x45], &[0xED, 0x4D], &[0xDD], &[0xFD], &[0xDD, 0xDD, 0xFD], &[0xFB, 0xFB], &[0xFB, 0xDD, 0x21, 0, 0x80],
                &[0xED, 0x57], &[0xED, 0x5F], &[0xED, 0x4F], &[0xED, 0x47], &[0xED, 0xB0], &[0xED, 0xB1], &[0xED, 0xB2], &[0xED, 0xB3], &[0x37], &[0x3F], &[0xFB, 0xC9], &[0xFB, 0xED, 0x4D],
                &[0xD3, 0x55], &[0xED, 0x79], &[0xED, 0x5E], &[0xED, 0x46], &[0xED, 0x56], &[0xDD, 0x76], &[0xDD, 0xFB], &[0xFD, 0xED, 0xA3], &[0xDD, 0xED, 0x45]];
            if v & 1 == 0 { HOp::Place(CTRL[(v >> 1) as usize % CTRL.len()].to_vec()) }
            else { let ws = [v >> 1, mix(v, 5)]; HOp::Place(opcode(&mut Tape::new(&ws))) }
        }
        _ => match v & 15 {
            0 => HOp::Reset, 1 => HOp::Ei, 2 => HOp::Di, 3 => HOp::RestoreIff, 4 => HOp::SetIm((v >> 4) as u8 % 3),
            5 | 6 => HOp::SetIffs(v >> 4 & 1 != 0, v >> 5 & 1 != 0), 7 => HOp::SetI(b8(v >> 4)), 8 => HOp::SetR(b8(v >> 4)),
            9 => HOp::AddR(((v >> 4) as i32) >> (v & 0x1F0 >> 4)), 10 => HOp::Halt, 11 => HOp::SetPc(b16(v >> 4)), 12 => HOp::SetSp(b16(v >> 4)),
            13 => HOp::SetAf(b16(v >> 4)), 14 => HOp::ExAf, _ => HOp::Exx,
        },
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum OpRes { None, Out(Out), Irq(Option<Out>), Nmi(bool) }

/// API calls every real caller respects: enable_interrupts()/halt() are not mixed with a pending prefix, EI or HALT
/// state (execute_with_limit asserts that a halted CPU has neither).
pub fn allowed(op: &HOp, s: &State) -> bool {
    match op {
        HOp::Ei => !s.halt && s.pfx == 0,
        HOp::Halt => !s.ei && s.pfx == 0,
        _ => true,
    }
}

pub fn apply<C: CpuX>(op: &HOp, c: &mut C, h: &mut TestHost, k: &mut TestClock) -> OpRes {
    match op {
        HOp::Step => return OpRes::Out(step(c, h, k)),
        HOp::Run(d) => { let lim = k.t + d; return OpRes::Out(out_of(c.execute_with_limit(h, k, lim))); }
        HOp::Exec(code) => return OpRes::Out(exec(c, h, k, *code)),
        HOp::Irq => return OpRes::Irq(c.irq::<_, _, NoDbg>(h, k, None).map(out_of)),
        HOp::Nmi => return OpRes::Nmi(c.nmi(h, k)),
        HOp::Reset => c.reset(),
        HOp::Ei => c.enable_interrupts(),
        HOp::Di => c.disable_interrupts(),
        HOp::RestoreIff => c.restore_iff1(),
        HOp::SetIm(m) => c.set_im(im_of(*m)),
        HOp::SetIffs(a, b) => c.set_iffs(*a, *b),
        HOp::SetI(v) => c.set_i(*v),
        HOp::SetR(v) => c.set_r(*v),
        HOp::AddR(d) => c.add_r(*d),
        HOp::Halt => c.halt(),
        HOp::Place(code) => { let pc = c.get_pc(); for (i, b) in code.iter().enumerate() { h.poke(pc.wrapping_add(i as u16), *b); } }
        HOp::SetPc(v) => c.set_pc(*v),
        HOp::SetSp(v) => c.set_sp(*v),
        HOp::SetAf(v) => { c.set_acc((*v >> 8) as u8); c.set_flags(CpuFlags::from_bits_retain(*v as u8)); }
        HOp::ExAf => c.ex_af_af(),
        HOp::Exx => c.exx(),
    }
    OpRes::None
}

pub fn apply_model(op: &HOp, m: &mut Model, h: &mut TestHost, k: &mut TestClock) -> OpRes {
    match op {
        HOp::Step => return OpRes::Out(m.step(h, k)),
        HOp::Run(d) => {
            let lim = k.t + d;
            while k.t < lim {
                let r = m.step(h, k);
                if r != Out::Ok { return OpRes::Out(r); }
            }
            return OpRes::Out(Out::Ok);
        }
        HOp::Exec(code) => return OpRes::Out(m.exec(h, k, *code)),
        HOp::Irq => return OpRes::Irq(m.irq(h, k)),
        HOp::Nmi => return OpRes::Nmi(m.nmi(h, k)),
        HOp::Reset => m.reset(),
        HOp::Ei => { m.iff1 = true; m.iff2 = true; m.ei = true }
        HOp::Di => { m.iff1 = false; m.iff2 = false }
        HOp::RestoreIff => m.iff1 = m.iff2,
        HOp::SetIm(x) => m.im = *x,
        HOp::SetIffs(a, b) => { m.iff1 = *a; m.iff2 = *b }
        HOp::SetI(v) => m.i = *v,
        HOp::SetR(v) => m.r = *v,
        HOp::AddR(d) => m.r = (m.r & 0x80) | ((m.r as i64 + *d as i64).rem_euclid(128)) as u8,
        HOp::Halt => m.halt = true,
        HOp::Place(code) => for (i, b) in code.iter().enumerate() { h.poke(m.pc.wrapping_add(i as u16), *b); },
        HOp::SetPc(v) => m.pc = *v,
        HOp::SetSp(v) => m.sp = *v,
        HOp::SetAf(v) => { m.r8[7] = (*v >> 8) as u8; m.r8[6] = *v as u8 }
        HOp::ExAf => { for n in [6, 7] { std::mem::swap(&mut m.r8[n], &mut m.alt[n]) } }
        HOp::Exx => { for n in 0..6 { std::mem::swap(&mut m.r8[n], &mut m.alt[n]) } }
    }
    OpRes::None
}

/// Common header of a history case. HIST_W words.
#[derive(Clone, Debug)]
pub struct Setup { pub fl: Fl, pub st: State, pub q: bool, pub cfg: HostCfg, pub cont: Cont, pub t0: u64 }
pub const HIST_W: usize = 1 + Tape::STATE_W + Tape::HOST_W + 1 + 1;

pub fn setup(t: &mut Tape) -> Setup {
    let fl = t.fl();
    let mut st = t.state();
    let mut cfg = t.hostcfg();
    let cont = t.cont();
    let m = t.w();
    match m & 15 { 0 => st.ei = true, 1 => st.pfx = 0xDD, 2 => st.pfx = 0xFD, 3 => st.halt = true, _ => {} }
    cfg.brk_rate = [0, 0, 1, 3][(m >> 4) as usize & 3];
    cfg.reti_rate = [0, 0, 1, 2][(m >> 6) as usize & 3];
    Setup { fl, st, q: m >> 8 & 1 != 0, cfg, cont, t0: if m >> 9 & 3 == 0 { (m >> 16) & 0xFFFF_FFFF } else { 0 } }
}

/// Clears the recorded events so that the next operation's can be compared alone.
pub fn clear_events(h: &mut TestHost, k: &mut TestClock) { h.ev.borrow_mut().clear(); k.ev.clear(); k.seq = 0; k.calls = 0; h.nread.set(0); }
