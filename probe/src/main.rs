//! Executes generated cases and prints what was observed. Built several times, with different features, profiles and under
//! Miri: the harness (p_build.rs) feeds the same cases to all of the builds and compares what they print.
//!
//! Input: lines of hexadecimal words, the first of them 0 (print a hash) or 1 (print everything). Output: a line for each line.
#![allow(dead_code)]
#[path = "../../harness/src/host.rs"]
mod host;
#[path = "../../harness/src/state.rs"]
mod state;
#[path = "../../harness/src/tape.rs"]
mod tape;

use host::{mix, Ts};
use state::*;
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use tape::{opcode, Tape};
use z80emu::disasm::{disasm_memory, disasm_memory_once, disasm_memory_write_text};
use z80emu::host::cycles::M1_CYCLE_TS;
use z80emu::host::{BreakCause, Clock, TsCounter};
use z80emu::{ CpuDebug, CpuFlags, Condition, InterruptMode, Prefix, Reg8, StkReg16, Z80Any};

/// What was observed: text, or only its hash.
struct Out { text: Option<String>, hash: u64, len: u64 }
impl std::fmt::Write for Out {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() { self.hash = (self.hash ^ b as u64).wrapping_mul(0x100_0000_01B3); }
        self.len += s.len() as u64;
        if let Some(t) = &mut self.text { t.push_str(s); }
        Ok(())
    }
}
impl Out {
    fn line(&mut self, a: std::fmt::Arguments) { let _ = self.write_fmt(a); let _ = self.write_str("\n"); }
    /// numbers, without the cost of formatting them when only the hash is wanted
    fn nums(&mut self, what: &str, v: &[u64]) {
        for n in v { self.hash = mix(self.hash, *n); }
        self.len += v.len() as u64;
        if self.text.is_some() { let h = self.hash; let l = self.len; self.line(format_args!("{} {:x?}", what, v)); self.hash = h; self.len = l; }
    }
}
macro_rules! out { ($o:expr, $($a:tt)*) => { $o.line(format_args!($($a)*)) } }

fn nums(s: &State) -> [u64; 21] {
    [s.af, s.bc, s.de, s.hl, s.af2, s.bc2, s.de2, s.hl2, s.ix, s.iy, s.pc, s.sp, s.wz].iter().map(|v| *v as u64)
        .chain([s.i as u64, s.r as u64, s.im as u64, s.iff1 as u64, s.iff2 as u64, s.halt as u64, s.ei as u64, s.pfx as u64])
        .collect::<Vec<_>>().try_into().unwrap()
}

fn debug_text(o: &mut Out, d: &CpuDebug, how: u64) {
    match how & 7 {
        0 => out!(o, "{}", d),
        1 => out!(o, "{:x} {:?}", d, d.prefix),
        2 => out!(o, "{:X}", d),
        3 => out!(o, "{:#x}", d),
        4 => out!(o, "{:#X} {:02x?}", d, d.code),
        5 => out!(o, "{:?}", d),
        6 => out!(o, "{:x} {} {:#X}", d.args, d.mnemonic, d.args),
        _ => o.nums("debug", &[d.pc as u64, d.code.len() as u64, d.code.iter().fold(0, |a, b| a << 8 | *b as u64)]),
    }
}

/// Small counters wrap around in long runs.
fn counter<T: Copy>(o: &mut Out, t: &mut Tape, mut c: TsCounter<T>)
where TsCounter<T>: Clock + std::fmt::Debug + Copy, <TsCounter<T> as Clock>::Timestamp: std::fmt::Debug {
    for _ in 0..1 + t.below(24) {
        let w = t.w();
        let a = (w >> 16) as u16;
        match w & 7 {
            0 => out!(o, "{:?}", c.add_m1(a)),
            1 => out!(o, "{:?}", c.add_mreq(a)),
            2 => out!(o, "{:?}", c.add_io(a)),
            3 => out!(o, "{:?}", c.add_irq(a)),
            4 => if let Some(n) = std::num::NonZeroU16::new(a) { c.add_wait_states(0, n) },
            5 => if let Some(n) = std::num::NonZeroU8::new(a as u8) { c.add_no_mreq(0, n) },
            _ => for _ in 0..a % 100 { c.add_m1(0); },
        }
        out!(o, "{:?} {:?}", c, c.as_timestamp());
    }
}

fn run<C: CpuX + Clone + PartialEq + std::fmt::Debug>(fl: Fl, t: &mut Tape, o: &mut Out, h: &mut host::TestHost, k: &mut host::TestClock) {
    let st = t.state();
    let mut cfg = t.hostcfg();
    let cont = t.cont();
    let w = t.w();
    cfg.brk_rate = [0, 0, 1, 5][w as usize & 3];
    cfg.reti_rate = [0, 0, 1, 2][(w >> 2) as usize & 3];
    let mut c: C = make(fl, &st, w >> 8 & 1 != 0);
    h.reset(cfg, false);
    k.reset(w >> 32, cont, false);
    let t0 = k.t;
    let n = (t.w() & 63) as usize;
    for _ in 0..n {
        let sel = t.w();
        let how = sel >> 32;
        match sel % 16 {
            0..=4 => {
                let code = opcode(t);
                let pc = c.get_pc();
                for (i, b) in code.iter().enumerate() { h.poke(pc.wrapping_add(i as u16), *b); }
                for _ in 0..1 + (how >> 8) % 3 {
                    let mut deb: Option<CpuDebug> = None;
                    let r = if how & 16 == 0 { c.execute_next::<_, _, fn(CpuDebug)>(h, k, None) } else { c.execute_next(h, k, Some(|d| deb = Some(d))) };
                    if let Some(d) = deb { debug_text(o, &d, how); }
                    if let Err(e) = r { out!(o, "{:?} {}", e, e); }
                }
            }
            5 => {
                let limit = k.t + how % 400;
                match c.execute_with_limit(h, k, limit) { Ok(()) => {} Err(e) => out!(o, "{:?}", e) }
            }
            6 => {
                let mut deb: Option<CpuDebug> = None;
                let r = if how & 16 == 0 { c.irq::<_, _, fn(CpuDebug)>(h, k, None) } else { c.irq(h, k, Some(|d| deb = Some(d))) };
                if let Some(d) = deb { debug_text(o, &d, how); }
                out!(o, "irq {:?}", r);
            }
            7 => { let r = c.nmi(h, k); out!(o, "nmi {}", r); }
            8 => {
                let mut deb: Option<CpuDebug> = None;
                let r = c.execute_instruction(h, k, Some(|d| deb = Some(d)), (how >> 8) as u8);
                if let Some(d) = deb { debug_text(o, &d, how); }
                out!(o, "{:?}", r);
            }
            9 => {
                let len = (how & 31) as usize;
                let mem: Vec<u8> = (0..len).flat_map(|_| opcode(t)).take(len).collect();
                let pc = (how >> 8) as u16;
                let r: Result<(), u8> = disasm_memory::<C, _, _>(pc, &mem, |d| { debug_text(o, &d, how >> 24); if how >> 30 & 15 == 0 { Err(3) } else { Ok(()) } });
                out!(o, "{:?}", r);
                if let Some(d) = disasm_memory_once::<C>(pc, &mem) { debug_text(o, &d, how >> 25); }
                let mut s = String::new();
                let r = disasm_memory_write_text::<C, _>(pc, &mem, &mut s);
                out!(o, "{:?} {}", r, s);
            }
            10 => {
                let v = (how >> 8) as u16;
                match how & 31 {
                    0 => c.inc_r(),
                    1 => c.add_r(how as i32),
                    2 => c.add_r((how >> 8) as i8 as i32),
                    3 => c.set_i(v as u8),
                    4 => c.set_r(v as u8),
                    5 => c.ex_af_af(),
                    6 => c.exx(),
                    7 => c.restore_iff1(),
                    8 => c.disable_interrupts(),
                    9 => c.set_iffs(v & 1 != 0, v & 2 != 0),
                    10 => c.set_im(InterruptMode::try_from(v as u8 % 3).unwrap()),
                    11 => c.reset(),
                    12 => c.set_flags(CpuFlags::from_bits_retain(v as u8)),
                    13 => c.set_acc(v as u8),
                    14 => c.set_sp(v),
                    15 => c.set_reg2(StkReg16::from_code(how as u8), v as u8, (v >> 8) as u8),
                    16 => c.set_index2(if how & 64 == 0 { Prefix::Xdd } else { Prefix::Yfd }, v as u8, (v >> 8) as u8),
                    17 => c.put_memptr(v),
                    18 => c.norm_r(),
                    x => {
                        let p = match x & 3 { 0 => None, 1 => Some(Prefix::Xdd), 2 => Some(Prefix::Yfd), _ => None };
                        if let Ok(r) = Reg8::try_from((how >> 40) as u8) {
                            if x & 4 == 0 { c.set_reg(r, p, v as u8) }
                            o.nums("reg", &[c.get_reg(r, p) as u64]);
                        }
                        let r = StkReg16::from_code((how >> 44) as u8);
                        out!(o, "{:?} {:?} {:?}", c.get_reg2(r), c.get_alt_reg2(r), c.get_index2(Prefix::Yfd));
                    }
                }
                o.nums("irq allowed, nmi allowed, ir", &[c.is_irq_allowed() as u64, c.is_nmi_allowed() as u64, c.get_ir() as u64, c.is_after_prefix() as u64]);
            }
            11 => {
                let d = c.clone();
                out!(o, "{} {:?}", d == c, c);
            }
            12 => match how & 7 {
                0..=2 => counter(o, t, TsCounter::<u16>::default()),
                3 => counter(o, t, TsCounter::<i32>::default()),
                4 => counter(o, t, TsCounter::<u32>::default()),
                5 => counter(o, t, TsCounter::<u64>::default()),
                6 => counter(o, t, TsCounter::<i64>::default()),
                _ => counter(o, t, TsCounter::<u128>::default()),
            },
            13 => {
                let b = (how >> 8) as u8;
                out!(o, "{:?} {:?} {:?}", Condition::from_code(b), StkReg16::from_code(b), Prefix::try_from(b));
                out!(o, "{:?} {:?} {:?}", InterruptMode::try_from(b), Reg8::try_from(b), CpuFlags::from_bits_retain(b));
                out!(o, "{:?} {:?} {:?}", CpuFlags::parity(b), CpuFlags::mask_sxy(b), Condition::from_code(b).is_satisfied(CpuFlags::from_bits_retain((how >> 16) as u8)));
                o.nums("M1", &[M1_CYCLE_TS as u64]);
                let e: BreakCause<u8, u16> = match b & 3 { 0 => BreakCause::Halt, 1 => BreakCause::WriteIo(b), _ => BreakCause::Reti(b as u16) };
                out!(o, "{} {:?}", e, e);
            }
            _ => {
                let limit = k.t + how % 60;
                let r = c.execute_with_limit(h, k, limit);
                out!(o, "{:?}", r);
            }
        }
        o.nums("state", &nums(&read_state(&c)));
        o.nums("clock", &[k.t - t0, k.hash, h.hash.get(), k.m1]);
    }
    let _ = Ts::default();
}

fn case(words: &[u64], full: bool, h: &mut host::TestHost, k: &mut host::TestClock) -> String {
    let mut o = Out { text: if full { Some(String::new()) } else { None }, hash: 0xCBF2_9CE4_8422_2325, len: 0 };
    let mut t = Tape::new(words);
    let kind = t.w();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match kind & 7 {
        0 | 1 => run::<z80emu::Z80<z80emu::z80::NMOS>>(Fl::Nmos, &mut t, &mut o, h, k),
        2 | 3 => run::<z80emu::Z80<z80emu::z80::CMOS>>(Fl::Cmos, &mut t, &mut o, h, k),
        4 | 5 => run::<z80emu::Z80<z80emu::z80::BM1>>(Fl::Bm1, &mut t, &mut o, h, k),
        _ => run::<Z80Any>(FLS[(kind >> 3) as usize % 3], &mut t, &mut o, h, k),
    }));
    if r.is_err() { out!(o, "panic"); }
    match o.text { Some(t) => t.replace('\n', "\u{1}"), None => format!("{:016x} {}", o.hash, o.len) }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (mut h, mut k) = (host::TestHost::new(), host::TestClock::new());
    let stdout = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let w: Vec<u64> = line.split_ascii_whitespace().map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
        let Some((full, words)) = w.split_first() else { continue };
        let s = case(words, *full != 0, &mut h, &mut k);
        let mut o = stdout.lock();
        let _ = writeln!(o, "{}", s);
        let _ = o.flush();
    }
}
