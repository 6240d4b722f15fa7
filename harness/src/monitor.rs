//! Follows the interrupt-related state of the CPU (EI/prefix shadow, flip-flops, mode, HALT, R) from the bus trace
//! alone: it looks only at opcode fetches and acknowledge cycles, so it is independent of what other instructions do.
use crate::hist::HOp;
use crate::host::*;
use crate::state::State;

#[derive(Clone, Debug)]
pub struct Monitor {
    pub ei: bool, pub pfx: u8, pub iff1: bool, pub iff2: bool, pub im: u8, pub halt: bool,
    pub acks: u64, pub fetches: u64,
    second: u8,
    /// opcode of the last executed instruction (second byte for ED/CB in `last2`)
    pub last: u8, pub last2: u8,
    /// counts over the whole history
    pub n_instr: u64, pub n_ack: u64, pub n_ack_halted: u64, pub n_halted: u64, pub n_shadowed: u64,
    /// LD R,A / LD I,A seen in the last operation
    pub wrote_r: bool,
    pub m1s: u64,
    /// instructions started / interrupts acknowledged in the last operation
    pub op_instr: u64, pub op_ack: u64,
    /// interrupt mode at the last acknowledge
    pub im_acked: u8,
}

pub fn active(cfg: &HostCfg, t: u64, acks: u64, fetches: u64) -> bool {
    match cfg.irq {
        Irq::Never => false,
        Irq::Always => true,
        Irq::Periodic { period, len, phase } => (t + phase) % period < len,
        Irq::ByFetch { period } => fetches >= (acks + 1) * period,
        Irq::Held { first, period } => t >= first + acks * period,
    }
}

impl Monitor {
    pub fn new(s: &State) -> Self {
        Monitor { ei: s.ei, pfx: s.pfx, iff1: s.iff1, iff2: s.iff2, im: s.im, halt: s.halt, acks: 0, fetches: 0, second: 0, last: 0, last2: 0,
            n_instr: 0, n_ack: 0, n_ack_halted: 0, n_halted: 0, n_shadowed: 0, wrote_r: false, m1s: 0, op_instr: 0, op_ack: 0, im_acked: 0 }
    }
    pub fn blocked(&self) -> bool { self.ei || self.pfx != 0 }

    fn start(&mut self, v: u8) {
        let px = self.pfx;
        self.ei = false; self.pfx = 0; self.halt = false;
        self.last = v; self.last2 = 0;
        self.n_instr += 1;
        match v {
            0xDD | 0xFD => self.pfx = v,
            0xFB => { self.ei = true; self.iff1 = true; self.iff2 = true }
            0xF3 => { self.iff1 = false; self.iff2 = false }
            0x76 => self.halt = true,
            0xED => self.second = 0xED,
            0xCB if px == 0 => self.second = 0xCB,
            _ => {}
        }
    }
    fn second(&mut self, v: u8) {
        self.last2 = v;
        if self.second == 0xED {
            match v {
                0x45 | 0x4D | 0x55 | 0x5D | 0x65 | 0x6D | 0x75 | 0x7D => self.iff1 = self.iff2,
                0x46 | 0x4E | 0x66 | 0x6E => self.im = 0,
                0x56 | 0x76 => self.im = 1,
                0x5E | 0x7E => self.im = 2,
                0x4F => self.wrote_r = true,
                _ => {}
            }
        }
        self.second = 0;
    }

    /// Consumes the events of one operation. `t0`: the clock before it.
    pub fn op(&mut self, op: &HOp, accepted: bool, cfg: &HostCfg, t0: u64, cev: &[CEv], bev: &[BEv]) -> Result<(), String> {
        self.wrote_r = false;
        let (i0, a0) = (self.n_instr, self.n_ack);
        let r = self.op_inner(op, accepted, cfg, t0, cev, bev);
        self.op_instr = self.n_instr - i0;
        self.op_ack = self.n_ack - a0;
        r
    }
    fn op_inner(&mut self, op: &HOp, accepted: bool, cfg: &HostCfg, t0: u64, cev: &[CEv], bev: &[BEv]) -> Result<(), String> {
        match op {
            HOp::Exec(code) => { self.start(*code); }
            HOp::Reset => { self.ei = false; self.pfx = 0; self.iff1 = false; self.iff2 = false; self.im = 0; self.halt = false; self.last = 0; self.last2 = 0; }
            HOp::Ei => { self.ei = true; self.iff1 = true; self.iff2 = true }
            HOp::Di => { self.iff1 = false; self.iff2 = false }
            HOp::RestoreIff => self.iff1 = self.iff2,
            HOp::SetIm(m) => self.im = *m,
            HOp::SetIffs(a, b) => { self.iff1 = *a; self.iff2 = *b }
            HOp::Halt => self.halt = true,
            HOp::Nmi => {
                if accepted != !self.blocked() { return Err(format!("NMI {} with shadow ei={} prefix={:02x}", if accepted { "accepted" } else { "refused" }, self.ei, self.pfx)); }
                if accepted { self.iff1 = false; self.halt = false; self.m1s += 1; self.last = 0; self.last2 = 0; }
                else if !cev.is_empty() || !bev.is_empty() { return Err("refused NMI touched the bus".into()); }
                return Ok(());
            }
            HOp::Irq => {
                if accepted != (self.iff1 && !self.blocked()) { return Err(format!("irq() {} with iff1={} ei={} prefix={:02x}", if accepted { "accepted" } else { "refused" }, self.iff1, self.ei, self.pfx)); }
                if !accepted && (!cev.is_empty() || !bev.is_empty()) { return Err("refused irq() touched the bus".into()); }
            }
            _ => {}
        }
        let mut b = 0;
        for (i, e) in cev.iter().enumerate() {
            let tb = if i == 0 { t0 } else { cev[i - 1].after };
            // bus event issued with this cycle's timestamp
            while b < bev.len() && (bev[b].ts.seq != i as u32 || !matches!(bev[b].k, BK::Op | BK::IrqData)) {
                if bev[b].ts.seq != NOSEQ && bev[b].ts.seq > i as u32 { break; }
                b += 1;
            }
            let here = if b < bev.len() && bev[b].ts.seq == i as u32 { Some(bev[b]) } else { None };
            match e.k {
                CK::M1 => {
                    self.m1s += 1;
                    let starting = self.second == 0;
                    if starting && *op != HOp::Irq && !matches!(op, HOp::Exec(_)) {
                        let pending = active(cfg, tb, self.acks, self.fetches);
                        if pending && self.iff1 {
                            if self.blocked() { self.n_shadowed += 1; }
                            else { return Err(format!("INT active at {} and allowed, but not acknowledged before the M1 at {:04x}", tb, e.addr)); }
                        }
                    }
                    match here {
                        Some(x) => {
                            self.fetches += 1;
                            if starting {
                                if self.halt { return Err(format!("opcode fetched at {:04x} while halted", x.addr)); }
                                self.start(x.val as u8)
                            } else { self.second(x.val as u8) }
                        }
                        None => {
                            if !self.halt { return Err(format!("M1 cycle at {:04x} without an opcode fetch while not halted", e.addr)); }
                            self.n_halted += 1;
                        }
                    }
                }
                CK::Irq => {
                    if !self.iff1 || self.blocked() { return Err(format!("interrupt acknowledged at {:04x} with iff1={} ei={} prefix={:02x}", e.addr, self.iff1, self.ei, self.pfx)); }
                    if *op != HOp::Irq && !active(cfg, tb, self.acks, self.fetches) { return Err(format!("interrupt acknowledged at t={} while INT is inactive", tb)); }
                    if self.second != 0 { return Err("interrupt acknowledged inside an instruction".into()); }
                    let x = match here { Some(x) if x.k == BK::IrqData => x, _ => return Err("acknowledge cycle without irq_data".into()) };
                    self.n_ack += 1;
                    self.im_acked = self.im;
                    if self.halt { self.n_ack_halted += 1; }
                    self.acks += 1;
                    self.m1s += 1;
                    self.iff1 = false; self.iff2 = false; self.halt = false;
                    self.last = 0; self.last2 = 0;
                    if self.im == 0 { self.start(x.val as u8) } else { self.ei = false; self.pfx = 0; }
                }
                _ => {}
            }
        }
        if self.second != 0 { return Err("operation ended inside a prefixed instruction".into()); }
        Ok(())
    }
}
