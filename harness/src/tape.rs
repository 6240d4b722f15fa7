//! Raw generated words and their decoding into biased values. A word near zero decodes to the simplest value, so
//! that proptest's shrinking of the words shrinks the decoded case.
use crate::host::{mix, Cont, HostCfg, Irq};
use crate::state::{Fl, State, FLS};

#[derive(Clone, Debug, PartialEq, Eq)]
#[cfg_attr(not(feature = "probe"), derive(serde::Serialize, serde::Deserialize))]
pub struct Case { pub h: Vec<u64>, pub ops: Vec<u64> }

pub struct Tape<'a> { w: &'a [u64], pos: usize }

pub const E8: [u8; 16] = [0, 1, 0xFF, 0x80, 0x7F, 0x0F, 0x10, 0x99, 0x9A, 0x08, 0x20, 0x28, 0xFE, 0x81, 0xF0, 0x40];
pub const E16: [u16; 16] = [0, 1, 0xFFFF, 0xFFFE, 0x8000, 0x7FFF, 0x00FF, 0x0100, 0x0FFF, 0x1000, 0x7F80, 0x80FF, 0xFF00, 0x4000, 0x2, 0x101];

#[inline] pub fn b8(w: u64) -> u8 { match w & 3 { 0 => E8[(w >> 2) as usize & 15], _ => (w >> 8) as u8 } }
#[inline] pub fn b16(w: u64) -> u16 {
    match w & 7 { 0 | 1 => E16[(w >> 3) as usize & 15], 2 => (b8(w >> 8) as u16) << 8 | b8(w >> 24) as u16, _ => (w >> 8) as u16 }
}

impl<'a> Tape<'a> {
    pub fn new(w: &'a [u64]) -> Self { Tape { w, pos: 0 } }
    #[inline] pub fn w(&mut self) -> u64 { let v = self.w.get(self.pos).copied().unwrap_or(0); self.pos += 1; v }
    #[inline] pub fn below(&mut self, n: u64) -> u64 { self.w() % n }
    #[inline] pub fn b8(&mut self) -> u8 { b8(self.w()) }
    #[inline] pub fn b16(&mut self) -> u16 { b16(self.w()) }
    #[inline] pub fn raw8(&mut self) -> u8 { self.w() as u8 }
    pub fn fl(&mut self) -> Fl { FLS[self.below(3) as usize] }

    /// 12 words: a CPU state; registers are often near each other so that operands, stack and code overlap.
    pub fn state(&mut self) -> State {
        let a = self.w(); let b = self.w();
        let pc = b16(a);
        let rel = |w: u64| -> u16 {
            match w >> 60 { 0 | 1 => pc.wrapping_add((w >> 8) as u16 % 8).wrapping_sub(3), _ => b16(w) }
        };
        let bc = match b >> 61 { 0 => (b >> 8) as u16 & 3, 1 => 0x0100 | (b >> 8) as u16 & 0xFF, _ => b16(b) };
        let de = rel(self.w()); let hl = rel(self.w()); let ix = rel(self.w()); let iy = rel(self.w());
        let sp = rel(self.w()); let wz = self.b16();
        let afw = self.w();
        let af = (b8(afw) as u16) << 8 | (afw >> 32) as u8 as u16;
        let altw = self.w(); let alt2 = self.w(); let misc = self.w();
        let mut st = State {
            af, bc, de, hl,
            af2: altw as u16, bc2: (altw >> 16) as u16, de2: (altw >> 32) as u16, hl2: (altw >> 48) as u16,
            ix, iy, pc, sp, wz,
            i: b8(alt2), r: b8(alt2 >> 20), im: (misc & 0xFF) as u8 % 3,
            iff1: misc >> 8 & 1 != 0, iff2: misc >> 9 & 1 != 0,
            halt: false, ei: false, pfx: 0,
        };
        // one state in four: registers which equal, or nearly equal, each other
        if misc >> 62 == 3 {
            st.relate(misc >> 16);
            if misc >> 61 & 1 != 0 { st.relate(misc >> 38); }
        }
        st
    }
    pub const STATE_W: usize = 12;

    pub fn cont(&mut self) -> Cont {
        let w = self.w();
        Cont { level: [0, 1, 2][(w % 3) as usize], seed: mix(w, 77) }
    }
    /// Interrupt line behaviour; `by_time`: schedules that depend on time are allowed
    pub fn irq(&mut self) -> Irq {
        let w = self.w();
        let v = w >> 8;
        match w & 7 {
            0 | 1 => Irq::Never,
            2 => Irq::Always,
            3 => Irq::Periodic { period: 5 + v % 300, len: 1 + (v >> 20) % 40, phase: (v >> 32) % 300 },
            4 => Irq::ByFetch { period: 1 + v % 12 },
            5 => Irq::Held { first: v % 60, period: 1 + (v >> 16) % 60 },
            _ => Irq::Held { first: v % 400, period: 1 + (v >> 16) % 700 },
        }
    }
    /// 3 words
    pub fn hostcfg(&mut self) -> HostCfg {
        let a = self.w(); let b = self.w();
        HostCfg {
            mem_seed: a, style: (b % 5) as u8, io_seed: mix(a, b >> 16),
            ws_rate: [0, 1, 2, 3][(b >> 3) as usize & 3], ws_seed: b >> 8,
            brk_rate: 0, reti_rate: 0,
            rom: [0, 0, 0, 0x4000][(b >> 5) as usize & 3],
            irq: self.irq(), irq_style: (b >> 60) as u8 & 3,
        }
    }
    pub const HOST_W: usize = 3;
}

/// All instruction encodings, as templates: table 0 plain, 1 CB, 2 ED, 3 DD, 4 FD, 5 DDCB, 6 FDCB, 7 DD+ED, 8 DD+FD...
pub fn encode(table: u64, op: u8, d: u8, n1: u8, n2: u8) -> Vec<u8> {
    match table {
        0 => vec![op, n1, n2, d],
        1 => vec![0xCB, op, n1, n2],
        2 => vec![0xED, op, n1, n2],
        3 => vec![0xDD, op, d, n1, n2],
        4 => vec![0xFD, op, d, n1, n2],
        5 => vec![0xDD, 0xCB, d, op, n1],
        6 => vec![0xFD, 0xCB, d, op, n1],
        7 => vec![0xDD, 0xED, op, n1, n2],
        _ => vec![0xFD, 0xDD, op, d, n1, n2],
    }
}
pub const TABLES: u64 = 9;

/// A random encoding, weighted so that rare tables are as well covered as the plain one. (2 words)
pub fn opcode(t: &mut Tape) -> Vec<u8> {
    let a = t.w(); let b = t.w();
    let table = [0, 1, 2, 3, 4, 5, 6, 0, 2, 2, 3, 4, 5, 6, 7, 8][(a & 15) as usize];
    let mut op = (a >> 4) as u8;
    if table == 2 || table == 7 {
        // the populated parts of the ED page three times out of four
        op = match (a >> 12) & 3 { 0 => op, 1 => 0xA0 | op & 0x1B, _ => 0x40 | op & 0x3F };
    }
    encode(table, op, b8(b), b8(b >> 20), b8(b >> 40))
}
