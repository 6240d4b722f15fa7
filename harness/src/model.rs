//! Independent reference Z80: decodes opcodes by their x/y/z/p/q fields and performs each machine cycle against
//! the instrumented host. Written from "The Undocumented Z80 Documented", the Zilog timing tables and the z80emu
//! trait documentation; flags are computed from wide arithmetic or explicit tables, not from z80emu's formulas.
use crate::host::{TestClock, TestHost};
use crate::state::{Fl, State};
use std::num::NonZeroU8;
use z80emu::{Clock, Io, Memory};

pub const S: u8 = 0x80; pub const Z: u8 = 0x40; pub const Y: u8 = 0x20; pub const H: u8 = 0x10;
pub const X: u8 = 0x08; pub const P: u8 = 0x04; pub const N: u8 = 0x02; pub const C: u8 = 0x01;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Out { Ok, Halt, Wr(u32), Reti(u32) }

#[derive(Clone, Debug)]
pub struct Model {
    pub fl: Fl,
    /// B C D E H L F A
    pub r8: [u8; 8],
    pub alt: [u8; 8],
    pub ix: u16, pub iy: u16, pub pc: u16, pub sp: u16, pub wz: u16,
    pub i: u8, pub r: u8, pub im: u8,
    pub iff1: bool, pub iff2: bool, pub halt: bool, pub ei: bool,
    pub pfx: u8,
    /// did the running / the previous instruction modify the flags
    pub q: bool, pub lq: bool,
    /// bit n: the n-th last instruction modified the flags
    pub hist: u32,
    out: Out,
}

const B_: usize = 0; const C_: usize = 1; const D_: usize = 2; const E_: usize = 3;
const H_: usize = 4; const L_: usize = 5; const F_: usize = 6; const A_: usize = 7;

fn nz(n: u8) -> NonZeroU8 { NonZeroU8::new(n).unwrap() }
fn even_parity(v: u8) -> bool { let mut n = 0; for b in 0..8 { n += (v >> b) & 1; } n % 2 == 0 }
fn fl_if(c: bool, f: u8) -> u8 { if c { f } else { 0 } }
/// S, Z and the copies of bits 5 and 3
fn szxy(v: u8) -> u8 { fl_if(v >= 128, S) | fl_if(v == 0, Z) | (v & (X | Y)) }

impl Model {
    pub fn new(fl: Fl, s: &State, q: bool) -> Model {
        let hi = |v: u16| (v >> 8) as u8;
        let lo = |v: u16| (v & 255) as u8;
        Model {
            fl,
            r8: [hi(s.bc), lo(s.bc), hi(s.de), lo(s.de), hi(s.hl), lo(s.hl), lo(s.af), hi(s.af)],
            alt: [hi(s.bc2), lo(s.bc2), hi(s.de2), lo(s.de2), hi(s.hl2), lo(s.hl2), lo(s.af2), hi(s.af2)],
            ix: s.ix, iy: s.iy, pc: s.pc, sp: s.sp, wz: s.wz, i: s.i, r: s.r, im: s.im,
            iff1: s.iff1, iff2: s.iff2, halt: s.halt, ei: s.ei, pfx: s.pfx,
            q: q && s.pfx == 0, lq: false, hist: 0, out: Out::Ok,
        }
    }
    pub fn state(&self) -> State {
        let w = |r: &[u8; 8], h: usize, l: usize| (r[h] as u16) * 256 + r[l] as u16;
        State {
            af: w(&self.r8, A_, F_), bc: w(&self.r8, B_, C_), de: w(&self.r8, D_, E_), hl: w(&self.r8, H_, L_),
            af2: w(&self.alt, A_, F_), bc2: w(&self.alt, B_, C_), de2: w(&self.alt, D_, E_), hl2: w(&self.alt, H_, L_),
            ix: self.ix, iy: self.iy, pc: self.pc, sp: self.sp, wz: self.wz, i: self.i, r: self.r, im: self.im,
            iff1: self.iff1, iff2: self.iff2, halt: self.halt, ei: self.ei, pfx: self.pfx,
        }
    }
    pub fn reset(&mut self) {
        *self = Model { q: false, lq: false, ..Model::new(self.fl, &State { af: 0xFFFF, af2: 0xFFFF, sp: 0xFFFF, ..State::default() }, false) };
    }

    // ---- registers
    fn bc(&self) -> u16 { u16::from_be_bytes([self.r8[B_], self.r8[C_]]) }
    fn de(&self) -> u16 { u16::from_be_bytes([self.r8[D_], self.r8[E_]]) }
    fn hl(&self) -> u16 { u16::from_be_bytes([self.r8[H_], self.r8[L_]]) }
    fn set_bc(&mut self, v: u16) { let [h, l] = v.to_be_bytes(); self.r8[B_] = h; self.r8[C_] = l; }
    fn set_de(&mut self, v: u16) { let [h, l] = v.to_be_bytes(); self.r8[D_] = h; self.r8[E_] = l; }
    fn set_hl(&mut self, v: u16) { let [h, l] = v.to_be_bytes(); self.r8[H_] = h; self.r8[L_] = l; }
    fn a(&self) -> u8 { self.r8[A_] }
    fn f(&self) -> u8 { self.r8[F_] }
    fn setf(&mut self, f: u8) { self.r8[F_] = f; self.q = true; self.hist |= 1; }
    fn ir(&self) -> u16 { (self.i as u16) << 8 | self.r as u16 }
    fn bump_r(&mut self) { self.r = (self.r & 0x80) | (((self.r & 0x7F) + 1) % 128); }
    /// HL, or the index register under a prefix
    fn hlx(&self, px: u8) -> u16 { match px { 0xDD => self.ix, 0xFD => self.iy, _ => self.hl() } }
    fn set_hlx(&mut self, px: u8, v: u16) { match px { 0xDD => self.ix = v, 0xFD => self.iy = v, _ => self.set_hl(v) } }
    fn get_r(&self, px: u8, n: u8) -> u8 {
        match n { 4 => (self.hlx(px) >> 8) as u8, 5 => self.hlx(px) as u8, 7 => self.r8[A_], 6 => unreachable!(), n => self.r8[n as usize] }
    }
    fn set_r(&mut self, px: u8, n: u8, v: u8) {
        match n {
            4 => { let w = self.hlx(px); self.set_hlx(px, (w & 0xFF) | (v as u16) << 8); }
            5 => { let w = self.hlx(px); self.set_hlx(px, (w & 0xFF00) | v as u16); }
            7 => self.r8[A_] = v,
            6 => unreachable!(),
            n => self.r8[n as usize] = v,
        }
    }
    /// BC DE HL SP by p
    fn get_rp(&self, px: u8, p: u8) -> u16 { match p { 0 => self.bc(), 1 => self.de(), 2 => self.hlx(px), _ => self.sp } }
    fn set_rp(&mut self, px: u8, p: u8, v: u16) { match p { 0 => self.set_bc(v), 1 => self.set_de(v), 2 => self.set_hlx(px, v), _ => self.sp = v } }
    fn get_rp2(&self, px: u8, p: u8) -> u16 { if p == 3 { (self.r8[A_] as u16) << 8 | self.r8[F_] as u16 } else { self.get_rp(px, p) } }

    // ---- machine cycles
    fn fetch(&mut self, h: &mut TestHost, c: &mut TestClock) -> u8 {
        self.bump_r();
        let ts = c.add_m1(self.pc);
        let v = h.read_opcode(self.pc, self.ir(), ts);
        self.pc = self.pc.wrapping_add(1);
        v
    }
    fn rd(&mut self, h: &mut TestHost, c: &mut TestClock, a: u16) -> u8 { let ts = c.add_mreq(a); h.read_mem(a, ts) }
    fn wr(&mut self, h: &mut TestHost, c: &mut TestClock, a: u16, v: u8) { let ts = c.add_mreq(a); h.write_mem(a, v, ts) }
    /// two byte read: one access with the first cycle's timestamp, two cycles
    fn rd16(&mut self, h: &mut TestHost, c: &mut TestClock, a: u16) -> u16 {
        let ts = c.add_mreq(a);
        let v = h.read_mem16(a, ts);
        c.add_mreq(a.wrapping_add(1));
        v
    }
    fn imm(&mut self, h: &mut TestHost, c: &mut TestClock) -> u8 { let v = self.rd(h, c, self.pc); self.pc = self.pc.wrapping_add(1); v }
    fn imm16(&mut self, h: &mut TestHost, c: &mut TestClock) -> u16 { let v = self.rd16(h, c, self.pc); self.pc = self.pc.wrapping_add(2); v }
    fn idle(&mut self, c: &mut TestClock, a: u16, n: u8) { c.add_no_mreq(a, nz(n)) }
    fn inp(&mut self, h: &mut TestHost, c: &mut TestClock, port: u16) -> u8 {
        let ts = c.add_io(port);
        let (v, ws) = h.read_io(port, ts);
        if let Some(ws) = ws { c.add_wait_states(port, ws) }
        v
    }
    fn outp(&mut self, h: &mut TestHost, c: &mut TestClock, port: u16, v: u8) {
        let ts = c.add_io(port);
        let (brk, ws) = h.write_io(port, v, ts);
        if let Some(ws) = ws { c.add_wait_states(port, ws) }
        if let Some(b) = brk { self.out = Out::Wr(b) }
    }
    fn push(&mut self, h: &mut TestHost, c: &mut TestClock, v: u16) {
        for b in [(v >> 8) as u8, (v & 0xFF) as u8] {
            self.sp = self.sp.wrapping_sub(1);
            self.wr(h, c, self.sp, b);
        }
    }
    fn pop(&mut self, h: &mut TestHost, c: &mut TestClock) -> u16 {
        let v = self.rd16(h, c, self.sp);
        self.sp = self.sp.wrapping_add(2);
        v
    }
    /// effective address of (IX+d)/(IY+d); sets MEMPTR
    fn ea(&mut self, px: u8, d: u8) -> u16 {
        let base = self.hlx(px) as i32;
        let v = (base + (d as i8) as i32).rem_euclid(65536) as u16;
        self.wz = v;
        v
    }
    /// address of the memory operand for an opcode with z or y == 6: fetches the displacement under a prefix
    fn mem_operand(&mut self, h: &mut TestHost, c: &mut TestClock, px: u8) -> u16 {
        if px == 0 { return self.hl(); }
        let dpc = self.pc;
        let d = self.imm(h, c);
        self.idle(c, dpc, 5);
        self.ea(px, d)
    }

    // ---- arithmetic
    fn add8(&mut self, v: u8, carry: bool) {
        let a = self.a();
        let k = carry as u16;
        let full = a as u16 + v as u16 + k;
        let signed = a as i8 as i16 + v as i8 as i16 + k as i16;
        let half = (a & 15) as u16 + (v & 15) as u16 + k;
        let res = full as u8;
        self.r8[A_] = res;
        self.setf(szxy(res) | fl_if(full >= 256, C) | fl_if(!(-128..=127).contains(&signed), P) | fl_if(half >= 16, H));
    }
    fn sub_flags(&mut self, v: u8, carry: bool) -> u8 {
        let a = self.a();
        let k = carry as i16;
        let full = a as i16 - v as i16 - k;
        let signed = a as i8 as i16 - v as i8 as i16 - k;
        let half = (a & 15) as i16 - (v & 15) as i16 - k;
        let res = full.rem_euclid(256) as u8;
        self.setf(szxy(res) | N | fl_if(full < 0, C) | fl_if(!(-128..=127).contains(&signed), P) | fl_if(half < 0, H));
        res
    }
    fn alu(&mut self, op: u8, v: u8) {
        let cf = self.f() & C != 0;
        match op {
            0 => self.add8(v, false),
            1 => self.add8(v, cf),
            2 => { self.r8[A_] = self.sub_flags(v, false); }
            3 => { self.r8[A_] = self.sub_flags(v, cf); }
            4 => { let r = self.a() & v; self.r8[A_] = r; self.setf(szxy(r) | H | fl_if(even_parity(r), P)); }
            5 => { let r = self.a() ^ v; self.r8[A_] = r; self.setf(szxy(r) | fl_if(even_parity(r), P)); }
            6 => { let r = self.a() | v; self.r8[A_] = r; self.setf(szxy(r) | fl_if(even_parity(r), P)); }
            _ => { self.sub_flags(v, false); let f = self.f(); self.setf((f & !(X | Y)) | (v & (X | Y))); }
        }
    }
    fn inc8(&mut self, v: u8) -> u8 {
        let r = if v == 255 { 0 } else { v + 1 };
        let f = self.f() & C;
        self.setf(f | szxy(r) | fl_if(v == 0x7F, P) | fl_if(v & 15 == 15, H));
        r
    }
    fn dec8(&mut self, v: u8) -> u8 {
        let r = if v == 0 { 255 } else { v - 1 };
        let f = self.f() & C;
        self.setf(f | N | szxy(r) | fl_if(v == 0x80, P) | fl_if(v & 15 == 0, H));
        r
    }
    /// CB rotates and shifts by y
    fn rot(&mut self, y: u8, v: u8) -> u8 {
        let ci = self.f() & C;
        let (r, co) = match y {
            0 => (v.rotate_left(1), v >> 7),
            1 => (v.rotate_right(1), v & 1),
            2 => (v * (v < 128) as u8 * 2 + if v >= 128 { (v - 128) * 2 } else { 0 } + ci, v >> 7),
            3 => (v / 2 + ci * 128, v & 1),
            4 => ((v & 127) * 2, v >> 7),
            5 => (v / 2 + (v & 128), v & 1),
            6 => ((v & 127) * 2 + 1, v >> 7),
            _ => (v / 2, v & 1),
        };
        self.setf(szxy(r) | fl_if(even_parity(r), P) | fl_if(co != 0, C));
        r
    }
    fn bit(&mut self, n: u8, v: u8, xy: u8) {
        let zero = (v >> n) & 1 == 0;
        let f = self.f() & C;
        self.setf(f | H | fl_if(zero, Z | P) | fl_if(n == 7 && !zero, S) | (xy & (X | Y)));
    }
    fn add16(&mut self, c: &mut TestClock, px: u8, v: u16) {
        let o = self.hlx(px);
        self.idle(c, self.ir(), 7);
        self.wz = o.wrapping_add(1);
        let full = o as u32 + v as u32;
        let half = (o & 0xFFF) + (v & 0xFFF);
        self.set_hlx(px, full as u16);
        let f = self.f() & (S | Z | P);
        self.setf(f | ((full >> 8) as u8 & (X | Y)) | fl_if(half > 0xFFF, H) | fl_if(full > 0xFFFF, C));
    }
    fn adc16(&mut self, c: &mut TestClock, v: u16) {
        let o = self.hl();
        let k = (self.f() & C) as u32;
        self.idle(c, self.ir(), 7);
        self.wz = o.wrapping_add(1);
        let full = o as u32 + v as u32 + k;
        let sg = o as i16 as i32 + v as i16 as i32 + k as i32;
        let half = (o & 0xFFF) as u32 + (v & 0xFFF) as u32 + k;
        let r = full as u16;
        self.set_hl(r);
        self.setf(((r >> 8) as u8 & (S | X | Y)) | fl_if(r == 0, Z) | fl_if(half > 0xFFF, H) | fl_if(full > 0xFFFF, C) | fl_if(!(-32768..=32767).contains(&sg), P));
    }
    fn sbc16(&mut self, c: &mut TestClock, v: u16) {
        let o = self.hl();
        let k = (self.f() & C) as i32;
        self.idle(c, self.ir(), 7);
        self.wz = o.wrapping_add(1);
        let full = o as i32 - v as i32 - k;
        let sg = o as i16 as i32 - v as i16 as i32 - k;
        let half = (o & 0xFFF) as i32 - (v & 0xFFF) as i32 - k;
        let r = full.rem_euclid(65536) as u16;
        self.set_hl(r);
        self.setf(((r >> 8) as u8 & (S | X | Y)) | N | fl_if(r == 0, Z) | fl_if(half < 0, H) | fl_if(full < 0, C) | fl_if(!(-32768..=32767).contains(&sg), P));
    }
    /// DAA by the table of "The Undocumented Z80 Documented"
    fn daa(&mut self) {
        let (a, f) = (self.a(), self.f());
        let (hi, lo) = (a >> 4, a & 15);
        let (cf, hf, nf) = (f & C != 0, f & H != 0, f & N != 0);
        let diff = match (cf, hi, hf, lo) {
            (false, 0..=9, false, 0..=9) => 0x00,
            (false, 0..=9, true, 0..=9) => 0x06,
            (false, 0..=8, _, 10..=15) => 0x06,
            (false, 10..=15, false, 0..=9) => 0x60,
            (true, _, false, 0..=9) => 0x60,
            (true, _, true, 0..=9) => 0x66,
            (true, _, _, 10..=15) => 0x66,
            (false, 9..=15, _, 10..=15) => 0x66,
            (false, 10..=15, true, 0..=9) => 0x66,
            _ => unreachable!(),
        };
        let nc = match (cf, hi, lo) {
            (true, _, _) => true,
            (false, 0..=9, 0..=9) | (false, 0..=8, 10..=15) => false,
            _ => true,
        };
        let nh = match (nf, hf, lo) {
            (false, _, 0..=9) => false,
            (false, _, _) => true,
            (true, false, _) => false,
            (true, true, 6..=15) => false,
            (true, true, _) => true,
        };
        let r = if nf { a.wrapping_sub(diff) } else { a.wrapping_add(diff) };
        self.r8[A_] = r;
        self.setf(szxy(r) | fl_if(even_parity(r), P) | (f & N) | fl_if(nc, C) | fl_if(nh, H));
    }

    // ---- interrupts and stepping
    pub fn int_blocked(&self) -> bool { self.ei || self.pfx != 0 }

    pub fn irq(&mut self, h: &mut TestHost, c: &mut TestClock) -> Option<Out> {
        if !self.iff1 || self.int_blocked() { return None; }
        self.iff1 = false; self.iff2 = false;
        self.bump_r();
        if self.halt { self.halt = false; self.pc = self.pc.wrapping_add(1); }
        let ts = c.add_irq(self.pc);
        let (v, ws) = h.irq_data(self.pc, ts);
        if let Some(ws) = ws { c.add_wait_states(self.pc, ws) }
        Some(match self.im {
            0 => self.exec(h, c, v),
            1 => self.exec(h, c, 0xFF),
            _ => {
                self.lq = self.q; self.q = false; self.hist <<= 1;
                self.idle(c, self.ir(), 1);
                self.push(h, c, self.pc);
                let va = (self.i as u16) << 8 | v as u16;
                let t = self.rd16(h, c, va);
                self.pc = t; self.wz = t;
                Out::Ok
            }
        })
    }
    pub fn nmi(&mut self, h: &mut TestHost, c: &mut TestClock) -> bool {
        if self.int_blocked() { return false; }
        self.iff1 = false;
        self.bump_r();
        if self.halt { self.halt = false; self.pc = self.pc.wrapping_add(1); }
        c.add_m1(self.pc);
        self.idle(c, self.ir(), 1);
        self.push(h, c, self.pc);
        self.lq = self.q; self.q = false; self.hist <<= 1;
        self.pc = 0x66;
        true
    }
    pub fn step(&mut self, h: &mut TestHost, c: &mut TestClock) -> Out {
        if self.iff1 && !self.int_blocked() && h.is_irq(c.as_timestamp()) {
            return self.irq(h, c).unwrap();
        }
        if self.halt { c.add_m1(self.pc); self.bump_r(); return Out::Ok; }
        let op = self.fetch(h, c);
        self.exec(h, c, op)
    }

    pub fn exec(&mut self, h: &mut TestHost, c: &mut TestClock, op: u8) -> Out {
        self.ei = false; self.halt = false;
        self.lq = self.q; self.q = false; self.hist <<= 1;
        self.out = Out::Ok;
        let px = self.pfx;
        self.pfx = 0;
        match op {
            0xDD | 0xFD => self.pfx = op,
            0xCB => if px == 0 { self.cb(h, c) } else { self.ddcb(h, c, px) },
            0xED => self.ed(h, c),
            _ => self.main(h, c, px, op),
        }
        self.out
    }

    fn cond(&self, y: u8) -> bool {
        let bit = match y >> 1 { 0 => Z, 1 => C, 2 => P, _ => S };
        (self.f() & bit != 0) == (y & 1 == 1)
    }

    fn main(&mut self, h: &mut TestHost, c: &mut TestClock, px: u8, op: u8) {
        let (x, y, z) = (op >> 6, (op >> 3) & 7, op & 7);
        let (p, q) = (y >> 1, y & 1);
        match (x, z) {
            (0, 0) => match y {
                0 => {}
                1 => { let t = (self.r8[A_], self.r8[F_]); self.r8[A_] = self.alt[A_]; self.r8[F_] = self.alt[F_]; self.alt[A_] = t.0; self.alt[F_] = t.1; }
                2 => { // DJNZ
                    self.idle(c, self.ir(), 1);
                    let b = self.r8[B_].wrapping_sub(1);
                    self.r8[B_] = b;
                    self.jr(h, c, b != 0);
                }
                3 => self.jr(h, c, true),
                _ => { let t = self.cond(y - 4); self.jr(h, c, t) }
            },
            (0, 1) => if q == 0 { let v = self.imm16(h, c); self.set_rp(px, p, v) } else { let v = self.get_rp(px, p); self.add16(c, px, v) },
            (0, 2) => match y {
                0 | 2 => { let a = if y == 0 { self.bc() } else { self.de() }; self.st_a(h, c, a) }
                1 | 3 => { let a = if y == 1 { self.bc() } else { self.de() }; self.wz = a.wrapping_add(1); self.r8[A_] = self.rd(h, c, a); }
                4 => { let a = self.imm16(h, c); let v = self.hlx(px); self.st16(h, c, a, v) }
                5 => { let a = self.imm16(h, c); let v = self.ld16(h, c, a); self.set_hlx(px, v) }
                6 => { let a = self.imm16(h, c); self.st_a(h, c, a) }
                _ => { let a = self.imm16(h, c); self.wz = a.wrapping_add(1); self.r8[A_] = self.rd(h, c, a); }
            },
            (0, 3) => { self.idle(c, self.ir(), 2); let v = self.get_rp(px, p); self.set_rp(px, p, if q == 0 { v.wrapping_add(1) } else { v.wrapping_sub(1) }) }
            (0, 4) | (0, 5) => {
                if y == 6 {
                    let a = self.mem_operand(h, c, px);
                    let v = self.rd(h, c, a);
                    self.idle(c, a, 1);
                    let r = if z == 4 { self.inc8(v) } else { self.dec8(v) };
                    self.wr(h, c, a, r);
                } else {
                    let v = self.get_r(px, y);
                    let r = if z == 4 { self.inc8(v) } else { self.dec8(v) };
                    self.set_r(px, y, r);
                }
            }
            (0, 6) => {
                if y == 6 {
                    if px == 0 { let n = self.imm(h, c); let a = self.hl(); self.wr(h, c, a, n) }
                    else {
                        let d = self.imm(h, c);
                        let npc = self.pc;
                        let n = self.imm(h, c);
                        self.idle(c, npc, 2);
                        let a = self.ea(px, d);
                        self.wr(h, c, a, n);
                    }
                } else { let n = self.imm(h, c); self.set_r(px, y, n) }
            }
            (0, 7) => {
                let (a, f) = (self.a(), self.f());
                match y {
                    0..=3 => {
                        let (r, co) = match y {
                            0 => (a << 1 | a >> 7, a >> 7),
                            1 => (a >> 1 | a << 7, a & 1),
                            2 => (a << 1 | f & C, a >> 7),
                            _ => (a >> 1 | (f & C) << 7, a & 1),
                        };
                        self.r8[A_] = r;
                        self.setf((f & (S | Z | P)) | (r & (X | Y)) | co);
                    }
                    4 => self.daa(),
                    5 => { self.r8[A_] = 255 - a; self.setf((f & (S | Z | P | C)) | H | N | ((255 - a) & (X | Y))) }
                    _ => {
                        let src = match self.fl { Fl::Cmos => a, _ => if self.lq { a } else { a | f } };
                        let base = (f & (S | Z | P)) | (src & (X | Y));
                        if y == 6 { self.setf(base | C) } else { self.setf(base | if f & C != 0 { H } else { C }) }
                    }
                }
            }
            (1, _) => {
                if op == 0x76 { self.pc = self.pc.wrapping_sub(1); self.halt = true; self.out = Out::Halt; }
                else if z == 6 { let a = self.mem_operand(h, c, px); let v = self.rd(h, c, a); self.set_r(0, y, v) }
                else if y == 6 { let a = self.mem_operand(h, c, px); let v = self.get_r(0, z); self.wr(h, c, a, v) }
                else { let v = self.get_r(px, z); self.set_r(px, y, v) }
            }
            (2, _) => {
                let v = if z == 6 { let a = self.mem_operand(h, c, px); self.rd(h, c, a) } else { self.get_r(px, z) };
                self.alu(y, v)
            }
            (3, 0) => { self.idle(c, self.ir(), 1); if self.cond(y) { self.ret(h, c) } }
            (3, 1) => {
                if q == 0 {
                    let v = self.pop(h, c);
                    if p == 3 { self.r8[A_] = (v >> 8) as u8; self.r8[F_] = v as u8; } else { self.set_rp(px, p, v) }
                } else {
                    match p {
                        0 => self.ret(h, c),
                        1 => { for n in [B_, C_, D_, E_, H_, L_] { std::mem::swap(&mut self.r8[n], &mut self.alt[n]) } }
                        2 => self.pc = self.hlx(px),
                        _ => { self.idle(c, self.ir(), 2); self.sp = self.hlx(px) }
                    }
                }
            }
            (3, 2) => { let t = self.imm16(h, c); self.wz = t; if self.cond(y) { self.pc = t } }
            (3, 3) => match y {
                0 => { let t = self.imm16(h, c); self.wz = t; self.pc = t }
                2 => { // OUT (n),A
                    let n = self.imm(h, c);
                    let a = self.a();
                    self.wz = (match self.fl { Fl::Bm1 => 0, _ => (a as u16) << 8 }) | (n.wrapping_add(1)) as u16;
                    self.outp(h, c, (a as u16) << 8 | n as u16, a)
                }
                3 => {
                    let n = self.imm(h, c);
                    let port = (self.a() as u16) << 8 | n as u16;
                    self.wz = port.wrapping_add(1);
                    self.r8[A_] = self.inp(h, c, port);
                }
                4 => { // EX (SP),HL
                    let sp = self.sp;
                    let v = self.rd16(h, c, sp);
                    let s1 = sp.wrapping_add(1);
                    self.idle(c, s1, 1);
                    let o = self.hlx(px);
                    self.wr(h, c, s1, (o >> 8) as u8);
                    self.wr(h, c, sp, o as u8);
                    self.idle(c, sp, 2);
                    self.set_hlx(px, v);
                    self.wz = v;
                }
                5 => { let t = self.de(); let u = self.hl(); self.set_de(u); self.set_hl(t) }
                6 => { self.iff1 = false; self.iff2 = false }
                _ => { self.iff1 = true; self.iff2 = true; self.ei = true }
            },
            (3, 4) => { let t = self.cond(y); self.call(h, c, t) }
            (3, 5) => {
                if q == 0 { self.idle(c, self.ir(), 1); let v = self.get_rp2(px, p); self.push(h, c, v) }
                else { self.call(h, c, true) } // only p == 0 gets here
            }
            (3, 6) => { let n = self.imm(h, c); self.alu(y, n) }
            _ => { self.idle(c, self.ir(), 1); self.push(h, c, self.pc); self.pc = (y * 8) as u16; self.wz = self.pc }
        }
    }
    fn jr(&mut self, h: &mut TestHost, c: &mut TestClock, taken: bool) {
        let at = self.pc;
        if taken {
            let e = self.imm(h, c);
            self.idle(c, at, 5);
            self.pc = (self.pc as i32 + e as i8 as i32).rem_euclid(65536) as u16;
            self.wz = self.pc;
        } else {
            c.add_mreq(at);
            self.pc = at.wrapping_add(1);
        }
    }
    fn ret(&mut self, h: &mut TestHost, c: &mut TestClock) { self.pc = self.pop(h, c); self.wz = self.pc }
    fn call(&mut self, h: &mut TestHost, c: &mut TestClock, taken: bool) {
        let hi_at = self.pc.wrapping_add(1);
        let t = self.imm16(h, c);
        self.wz = t;
        if taken {
            self.idle(c, hi_at, 1);
            self.push(h, c, self.pc);
            self.pc = t;
        }
    }
    fn st_a(&mut self, h: &mut TestHost, c: &mut TestClock, a: u16) {
        let hi = match self.fl { Fl::Bm1 => 0, _ => self.a() };
        self.wz = (hi as u16) << 8 | (a.wrapping_add(1) & 0xFF);
        let v = self.a();
        self.wr(h, c, a, v)
    }
    fn st16(&mut self, h: &mut TestHost, c: &mut TestClock, a: u16, v: u16) {
        self.wr(h, c, a, v as u8);
        self.wr(h, c, a.wrapping_add(1), (v >> 8) as u8);
        self.wz = a.wrapping_add(1);
    }
    fn ld16(&mut self, h: &mut TestHost, c: &mut TestClock, a: u16) -> u16 { let v = self.rd16(h, c, a); self.wz = a.wrapping_add(1); v }

    fn cb(&mut self, h: &mut TestHost, c: &mut TestClock) {
        let op = self.fetch(h, c);
        let (x, y, z) = (op >> 6, (op >> 3) & 7, op & 7);
        let a = self.hl();
        let v = if z == 6 { let v = self.rd(h, c, a); self.idle(c, a, 1); v } else { self.get_r(0, z) };
        if x == 1 {
            let xy = if z == 6 { (self.wz >> 8) as u8 } else { v };
            self.bit(y, v, xy);
            return;
        }
        let r = match x { 0 => self.rot(y, v), 2 => v & !(1 << y), _ => v | 1 << y };
        if z == 6 { self.wr(h, c, a, r) } else { self.set_r(0, z, r) }
    }
    fn ddcb(&mut self, h: &mut TestHost, c: &mut TestClock, px: u8) {
        let d = self.imm(h, c);
        let at = self.pc;
        let op = self.imm(h, c);
        self.idle(c, at, 2);
        let a = self.ea(px, d);
        let (x, y, z) = (op >> 6, (op >> 3) & 7, op & 7);
        let v = self.rd(h, c, a);
        self.idle(c, a, 1);
        if x == 1 { self.bit(y, v, (a >> 8) as u8); return; }
        let r = match x { 0 => self.rot(y, v), 2 => v & !(1 << y), _ => v | 1 << y };
        self.wr(h, c, a, r);
        if z != 6 { self.set_r(0, z, r) }
    }
    fn ed(&mut self, h: &mut TestHost, c: &mut TestClock) {
        let op = self.fetch(h, c);
        let (x, y, z) = (op >> 6, (op >> 3) & 7, op & 7);
        let (p, q) = (y >> 1, y & 1);
        match (x, z) {
            (1, 0) => {
                let bc = self.bc();
                let v = self.inp(h, c, bc);
                self.wz = bc.wrapping_add(1);
                let f = self.f() & C;
                self.setf(f | szxy(v) | fl_if(even_parity(v), P));
                if y != 6 { self.set_r(0, y, v) }
            }
            (1, 1) => {
                let bc = self.bc();
                self.wz = bc.wrapping_add(1);
                let v = if y == 6 { if self.fl == Fl::Cmos { 0xFF } else { 0 } } else { self.get_r(0, y) };
                self.outp(h, c, bc, v)
            }
            (1, 2) => { let v = self.get_rp(0, p); if q == 0 { self.sbc16(c, v) } else { self.adc16(c, v) } }
            (1, 3) => {
                let a = self.imm16(h, c);
                if q == 0 { let v = self.get_rp(0, p); self.st16(h, c, a, v) } else { let v = self.ld16(h, c, a); self.set_rp(0, p, v) }
            }
            (1, 4) => { let v = self.a(); self.r8[A_] = 0; self.r8[A_] = self.sub_flags(v, false); }
            (1, 5) => {
                if y == 1 { // RETI is signalled before the stack is read
                    if let Some(b) = h.reti(self.pc, c.as_timestamp()) { self.out = Out::Reti(b) }
                }
                self.iff1 = self.iff2;
                self.ret(h, c)
            }
            (1, 6) => self.im = match y & 3 { 2 => 1, 3 => 2, _ => 0 },
            (1, 7) => match y {
                0 => { self.idle(c, self.ir(), 1); self.i = self.a() }
                1 => { self.idle(c, self.ir(), 1); self.r = self.a() }
                2 | 3 => {
                    let v = if y == 2 { self.i } else { self.r };
                    self.idle(c, self.ir(), 1);
                    let mut pv = self.iff2;
                    // NMOS: the flip-flop is already cleared when an interrupt is being accepted
                    if self.fl == Fl::Nmos && self.iff1 && pv && h.is_irq(c.as_timestamp()) { pv = false }
                    self.r8[A_] = v;
                    let f = self.f() & C;
                    self.setf(f | szxy(v) | fl_if(pv, P))
                }
                4 | 5 => {
                    let a = self.hl();
                    let m = self.rd(h, c, a);
                    self.idle(c, a, 4);
                    let acc = self.a();
                    // 12-bit rotation of (A low nibble, memory) by one digit
                    let digits = ((acc as u16 & 15) << 8) | m as u16;
                    let rotd = if y == 5 { ((digits << 4) | (digits >> 8)) & 0xFFF } else { ((digits >> 4) | (digits << 8)) & 0xFFF };
                    self.wr(h, c, a, rotd as u8);
                    let na = (acc & 0xF0) | (rotd >> 8) as u8;
                    self.r8[A_] = na;
                    self.wz = a.wrapping_add(1);
                    let f = self.f() & C;
                    self.setf(f | szxy(na) | fl_if(even_parity(na), P))
                }
                _ => {}
            },
            (2, 0..=3) if y >= 4 => self.block(h, c, y, z),
            _ => {}
        }
    }
    fn block(&mut self, h: &mut TestHost, c: &mut TestClock, y: u8, z: u8) {
        let dir: i32 = if y & 1 == 0 { 1 } else { -1 };
        let repeat = y >= 6;
        let step = |v: u16| (v as i32 + dir).rem_euclid(65536) as u16;
        let (hl, de, bc) = (self.hl(), self.de(), self.bc());
        let this = self.pc.wrapping_sub(2);
        match z {
            0 => {
                let v = self.rd(h, c, hl);
                self.wr(h, c, de, v);
                self.idle(c, de, 2);
                self.set_hl(step(hl)); self.set_de(step(de)); self.set_bc(bc.wrapping_sub(1));
                let n = v.wrapping_add(self.a());
                let more = bc != 1;
                let f = self.f() & (S | Z | C);
                self.setf(f | (n & X) | fl_if(n & 2 != 0, Y) | fl_if(more, P));
                if repeat && more { self.idle(c, de, 5); self.pc = this; self.wz = this.wrapping_add(1) }
            }
            1 => {
                let v = self.rd(h, c, hl);
                self.idle(c, hl, 5);
                self.set_hl(step(hl)); self.set_bc(bc.wrapping_sub(1));
                let a = self.a();
                let res = a.wrapping_sub(v);
                let half = (a & 15) < (v & 15);
                let n = res.wrapping_sub(half as u8);
                let more = bc != 1;
                let f = self.f() & C;
                self.setf(f | N | fl_if(res >= 128, S) | fl_if(res == 0, Z) | fl_if(half, H) | (n & X) | fl_if(n & 2 != 0, Y) | fl_if(more, P));
                if repeat && more && res != 0 { self.idle(c, hl, 5); self.pc = this; self.wz = this.wrapping_add(1) } else { self.wz = step(self.wz) }
            }
            2 => {
                self.idle(c, self.ir(), 1);
                let v = self.inp(h, c, bc);
                self.wr(h, c, hl, v);
                self.wz = step(bc);
                let b = self.r8[B_].wrapping_sub(1);
                self.r8[B_] = b;
                self.set_hl(step(hl));
                let k = v as u16 + (step(self.r8[C_] as u16) & 0xFF);
                self.io_flags(v, k, b);
                if repeat && b != 0 { self.idle(c, hl, 5); self.pc = this }
            }
            _ => {
                self.idle(c, self.ir(), 1);
                let v = self.rd(h, c, hl);
                let b = self.r8[B_].wrapping_sub(1);
                self.r8[B_] = b;
                let port = self.bc();
                self.outp(h, c, port, v);
                self.wz = step(port);
                self.set_hl(step(hl));
                let k = v as u16 + self.r8[L_] as u16;
                self.io_flags(v, k, b);
                if repeat && b != 0 { self.idle(c, port, 5); self.pc = this }
            }
        }
    }
    fn io_flags(&mut self, v: u8, k: u16, b: u8) {
        self.setf(szxy(b) | fl_if(v >= 128, N) | fl_if(k > 255, H | C) | fl_if(even_parity((k & 7) as u8 ^ b), P))
    }
}
