//! Plain architectural state, and adapters from and to the CPU types under test.
use crate::host::{TestClock, TestHost};
use z80emu::z80::{Flavour, BM1, CMOS, NMOS};
use z80emu::{Cpu, CpuFlags, InterruptMode, Prefix, StkReg16, Z80Any, Z80};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fl { Nmos, Cmos, Bm1 }
pub const FLS: [Fl; 3] = [Fl::Nmos, Fl::Cmos, Fl::Bm1];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct State {
    pub af: u16, pub bc: u16, pub de: u16, pub hl: u16,
    pub af2: u16, pub bc2: u16, pub de2: u16, pub hl2: u16,
    pub ix: u16, pub iy: u16, pub pc: u16, pub sp: u16, pub wz: u16,
    pub i: u8, pub r: u8, pub im: u8,
    pub iff1: bool, pub iff2: bool, pub halt: bool, pub ei: bool,
    /// 0, 0xDD or 0xFD
    pub pfx: u8,
}

impl State {
    /// Makes a register (or one of its halves) equal or close to another one. Uses 19 bits of `w`.
    pub fn relate(&mut self, w: u64) {
        let src = [self.pc, self.sp, self.hl, self.de, self.bc, self.ix, self.iy, self.wz, self.af, self.af2, self.bc2, self.de2, self.hl2, (self.i as u16) << 8 | self.r as u16][(w & 0xFF) as usize % 14];
        let (dst, near, how) = (w >> 8 & 0x1F, [0, 0, 1, 2, 0xFFFF, 0xFFFE, 0, 0x100][(w >> 13) as usize & 7], w >> 16 & 7);
        let v = src.wrapping_add(near);
        let mix = |old: u16| match how { 0 => old & 0xFF00 | v & 0xFF, 1 => old & 0xFF | v & 0xFF00, 2 => old & 0xFF00 | v >> 8, 3 => old & 0xFF | v << 8, _ => v };
        let d = match dst % 13 {
            0 => &mut self.sp, 1 => &mut self.hl, 2 => &mut self.de, 3 => &mut self.bc, 4 => &mut self.ix, 5 => &mut self.iy, 6 => &mut self.wz,
            7 => &mut self.af, 8 => &mut self.af2, 9 => &mut self.bc2, 10 => &mut self.de2, 11 => &mut self.hl2,
            _ => { self.i = (v >> 8) as u8; self.r = v as u8; return; }
        };
        *d = mix(*d);
    }
    pub fn diff(&self, o: &State) -> String {
        let mut s = String::new();
        macro_rules! d { ($($f:ident),*) => { $( if self.$f != o.$f { s.push_str(&format!(" {}: {:x?}!={:x?}", stringify!($f), self.$f, o.$f)); } )* } }
        d!(af, bc, de, hl, af2, bc2, de2, hl2, ix, iy, pc, sp, wz, i, r, im, iff1, iff2, halt, ei, pfx);
        s
    }
}

/// What the three `Z80<F>` types and `Z80Any` have in common beyond `Cpu`.
pub trait CpuX: Cpu {
    fn memptr(&self) -> u16;
    fn put_memptr(&mut self, v: u16);
    fn norm_r(&mut self);
    fn fresh(fl: Fl) -> Self;
}
impl<Q: Flavour> CpuX for Z80<Q> {
    fn memptr(&self) -> u16 { self.get_memptr() }
    fn put_memptr(&mut self, v: u16) { self.set_memptr(v) }
    fn norm_r(&mut self) { self.normalize_r() }
    fn fresh(_: Fl) -> Self { Z80::<Q>::new() }
}
impl CpuX for Z80Any {
    fn memptr(&self) -> u16 { self.get_memptr() }
    fn put_memptr(&mut self, v: u16) { self.set_memptr(v) }
    fn norm_r(&mut self) { self.normalize_r() }
    fn fresh(fl: Fl) -> Self {
        match fl { Fl::Nmos => Z80Any::new_nmos(), Fl::Cmos => Z80Any::new_cmos(), Fl::Bm1 => Z80Any::new_bm1() }
    }
}

pub fn im_of(im: u8) -> InterruptMode { match im { 0 => InterruptMode::Mode0, 1 => InterruptMode::Mode1, _ => InterruptMode::Mode2 } }
pub fn im_no(im: InterruptMode) -> u8 { match im { InterruptMode::Mode0 => 0, InterruptMode::Mode1 => 1, InterruptMode::Mode2 => 2 } }

pub fn read_state<C: CpuX>(c: &C) -> State {
    let (iff1, iff2) = c.get_iffs();
    State {
        af: c.get_reg16(StkReg16::AF), bc: c.get_reg16(StkReg16::BC), de: c.get_reg16(StkReg16::DE), hl: c.get_reg16(StkReg16::HL),
        af2: c.get_alt_reg16(StkReg16::AF), bc2: c.get_alt_reg16(StkReg16::BC), de2: c.get_alt_reg16(StkReg16::DE), hl2: c.get_alt_reg16(StkReg16::HL),
        ix: c.get_index16(Prefix::Xdd), iy: c.get_index16(Prefix::Yfd), pc: c.get_pc(), sp: c.get_sp(), wz: c.memptr(),
        i: c.get_i(), r: c.get_r(), im: im_no(c.get_im()), iff1, iff2, halt: c.is_halt(), ei: c.is_after_ei(),
        pfx: c.get_prefix().map_or(0, |p| p.to_code()),
    }
}

/// Brings a new CPU to the given state through the public API. `q`: the previous instruction modified flags.
pub fn make<C: CpuX>(fl: Fl, s: &State, q: bool) -> C {
    let mut c = C::fresh(fl);
    put_state(&mut c, s, q);
    c
}

thread_local! { static DUMMY: std::cell::RefCell<(TestHost, TestClock)> = std::cell::RefCell::new((TestHost::new(), TestClock::new())); }

/// Executes one opcode with a throw-away host (the opcode must not need any operand).
pub fn exec_dummy<C: Cpu>(c: &mut C, code: u8) {
    DUMMY.with(|d| {
        let mut d = d.borrow_mut();
        let (h, k) = &mut *d;
        h.rec = false; k.rec = false; h.budget = u64::MAX; k.budget = u64::MAX;
        let r = c.execute_instruction::<_, _, fn(z80emu::CpuDebug)>(h, k, None, code);
        debug_assert!(r.is_ok());
    })
}

pub fn put_state<C: CpuX>(c: &mut C, s: &State, q: bool) {
    exec_dummy(c, 0x00);
    exec_dummy(c, if q { 0xB7 } else { 0x00 });
    // alternate set first
    c.set_reg16(StkReg16::AF, s.af2); c.set_reg16(StkReg16::BC, s.bc2); c.set_reg16(StkReg16::DE, s.de2); c.set_reg16(StkReg16::HL, s.hl2);
    c.ex_af_af(); c.exx();
    c.set_reg16(StkReg16::AF, s.af); c.set_reg16(StkReg16::BC, s.bc); c.set_reg16(StkReg16::DE, s.de); c.set_reg16(StkReg16::HL, s.hl);
    c.set_index16(Prefix::Xdd, s.ix); c.set_index16(Prefix::Yfd, s.iy);
    c.set_sp(s.sp); c.put_memptr(s.wz); c.set_i(s.i); c.set_r(s.r); c.set_im(im_of(s.im));
    if s.pfx != 0 { exec_dummy(c, s.pfx); }
    c.set_pc(s.pc);
    if s.ei { c.enable_interrupts(); }
    c.set_iffs(s.iff1, s.iff2);
    if s.halt { c.halt(); }
    c.set_acc((s.af >> 8) as u8);
    c.set_flags(CpuFlags::from_bits_retain(s.af as u8));
}

/// Dispatches a generic function over the flavours.
#[macro_export]
macro_rules! with_flavour {
    ($fl:expr, $f:ident, ($($a:expr),*)) => {
        match $fl {
            $crate::state::Fl::Nmos => $f::<z80emu::Z80<z80emu::z80::NMOS>>($($a),*),
            $crate::state::Fl::Cmos => $f::<z80emu::Z80<z80emu::z80::CMOS>>($($a),*),
            $crate::state::Fl::Bm1 => $f::<z80emu::Z80<z80emu::z80::BM1>>($($a),*),
        }
    };
}

#[allow(dead_code)]
pub fn flavour_names() -> [&'static str; 3] { [NMOS::tag(), CMOS::tag(), BM1::tag()] }
