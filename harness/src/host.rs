//! Instrumented host: clock, memory and I/O with a complete event trace. The same concrete types serve the
//! implementation under test (through z80emu's traits) and the reference model.
use std::cell::RefCell;
use std::num::{NonZeroU16, NonZeroU8};
use z80emu::{Clock, Io, Memory};

#[inline(always)]
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^= x >> 29;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^ (x >> 32)
}
#[inline(always)]
pub fn mix3(a: u64, b: u64, c: u64) -> u64 { mix(mix(a, b), c) }

/// A timestamp: the T-state and the serial number of the clock event which returned it.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Ts { pub t: u64, pub seq: u32 }
pub const NOSEQ: u32 = u32::MAX;
/// Calls of the host between two resets of the counters that only code which never stops can reach.
pub const RUNAWAY: u64 = 3_000_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CK { M1, Mreq, NoMreq, Io, Irq, Wait }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct CEv { pub k: CK, pub addr: u16, pub n: u16, pub after: u64 }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BK { Op, Rd, Rd16, Wr, In, Out, IrqData, Reti }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct BEv { pub k: BK, pub addr: u16, pub val: u16, pub aux: u32, pub ts: Ts }

/// How the host delays the CPU. level 0: flat clock.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Cont { pub level: u8, pub seed: u64 }

impl Cont {
    #[inline]
    fn extra(&self, k: u64, addr: u16, t: u64) -> u64 {
        match self.level {
            0 => 0,
            // page contention depending on phase, like an ULA
            1 => if (addr >> 14) as u64 == (self.seed & 3) { [6, 5, 4, 3, 2, 1, 0, 0][((t.wrapping_add(self.seed >> 2)) & 7) as usize] } else { 0 },
            _ => {
                let h = mix3(self.seed ^ k, addr as u64, t);
                if h & 3 == 0 { (h >> 40) % 7 } else { 0 }
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct TestClock {
    pub t: u64,
    pub seq: u32,
    pub added: u64, // T-states added by the host on top of the documented ones
    pub waits: u64,
    pub cont: Cont,
    pub rec: bool,
    pub hash: u64,
    pub m1: u64,
    pub calls: u64,
    pub ev: Vec<CEv>,
    /// stop adding (for the adversarial clock): the clock wraps modulo 2^wrap_bits when non-zero
    pub budget: u64,
}

impl TestClock {
    pub fn new() -> Self {
        TestClock { t: 0, seq: 0, added: 0, waits: 0, cont: Cont::default(), rec: true, hash: 0, m1: 0, calls: 0, ev: Vec::new(), budget: u64::MAX }
    }
    pub fn reset(&mut self, t: u64, cont: Cont, rec: bool) {
        self.t = t; self.seq = 0; self.added = 0; self.waits = 0; self.cont = cont; self.rec = rec;
        self.hash = 0; self.m1 = 0; self.calls = 0; self.ev.clear(); self.budget = RUNAWAY;
    }
    #[inline(always)]
    fn push(&mut self, k: CK, addr: u16, n: u16) -> u32 {
        let s = self.seq;
        self.seq = self.seq.wrapping_add(1);
        self.calls += 1;
        if self.calls > self.budget { panic!("too many clock calls in one step (more than {})", self.budget); }
        if self.rec { self.ev.push(CEv { k, addr, n, after: self.t }); }
        self.hash = mix3(self.hash, (k as u64) << 32 | (addr as u64) << 16 | n as u64, self.t);
        s
    }
}

impl Clock for TestClock {
    type Limit = u64;
    type Timestamp = Ts;
    #[inline] fn is_past_limit(&self, limit: u64) -> bool { self.t >= limit }
    #[inline] fn add_irq(&mut self, pc: u16) -> Ts {
        let x = self.cont.extra(5, pc, self.t); self.added += x;
        self.t += x + 6;
        let s = self.push(CK::Irq, pc, 6);
        Ts { t: self.t - 4, seq: s }
    }
    #[inline] fn add_no_mreq(&mut self, address: u16, n: NonZeroU8) {
        let x = self.cont.extra(2, address, self.t); self.added += x;
        self.t += x + n.get() as u64;
        self.push(CK::NoMreq, address, n.get() as u16);
    }
    #[inline] fn add_m1(&mut self, address: u16) -> Ts {
        let x = self.cont.extra(0, address, self.t); self.added += x;
        self.t += x + 4;
        self.m1 += 1;
        let s = self.push(CK::M1, address, 4);
        Ts { t: self.t, seq: s }
    }
    #[inline] fn add_mreq(&mut self, address: u16) -> Ts {
        let x = self.cont.extra(1, address, self.t); self.added += x;
        self.t += x + 3;
        let s = self.push(CK::Mreq, address, 3);
        Ts { t: self.t, seq: s }
    }
    #[inline] fn add_io(&mut self, port: u16) -> Ts {
        let x = self.cont.extra(3, port, self.t); self.added += x;
        self.t += x + 4;
        let s = self.push(CK::Io, port, 4);
        Ts { t: self.t - 3, seq: s }
    }
    #[inline] fn add_wait_states(&mut self, bus: u16, ws: NonZeroU16) {
        self.t += ws.get() as u64; self.added += ws.get() as u64; self.waits += ws.get() as u64;
        self.push(CK::Wait, bus, ws.get());
    }
    #[inline] fn as_timestamp(&self) -> Ts { Ts { t: self.t, seq: NOSEQ } }
}

/// When the INT line is active.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Irq {
    Never,
    Always,
    /// active while (t + phase) % period < len
    Periodic { period: u64, len: u64, phase: u64 },
    /// from every multiple of `period` (in opcode reads) until acknowledged: does not depend on time
    ByFetch { period: u64 },
    /// requested at t = first + n*period, held until acknowledged
    Held { first: u64, period: u64 },
}

#[derive(Clone, Copy, Debug)]
pub struct HostCfg {
    pub mem_seed: u64,
    pub style: u8,
    pub io_seed: u64,
    /// 0: never, n: with probability 1/n per I/O
    pub ws_rate: u64,
    pub ws_seed: u64,
    pub brk_rate: u64,
    pub reti_rate: u64,
    pub rom: u16,
    pub irq: Irq,
    /// probability 1/n that the data byte of an interrupt is taken from a list of interesting opcodes
    pub irq_style: u8,
}
impl Default for HostCfg {
    fn default() -> Self {
        HostCfg { mem_seed: 0, style: 0, io_seed: 0, ws_rate: 0, ws_seed: 0, brk_rate: 0, reti_rate: 0, rom: 0, irq: Irq::Never, irq_style: 0 }
    }
}

pub struct TestHost {
    pub cfg: HostCfg,
    vals: Vec<u8>,
    stamp: Vec<u32>,
    gen: u32,
    touched: Vec<u16>,
    pub rec: bool,
    pub ev: RefCell<Vec<BEv>>,
    pub hash: std::cell::Cell<u64>,
    pub nread: std::cell::Cell<u64>,
    pub fetches: u64,
    pub ios: u64,
    pub acks: u64,
    pub irq_calls: u64,
    pub retis: u64,
    pub brks: u64,
    pub budget: u64,
    /// (port, data) log of outputs and memory writes for comparisons that ignore time
    pub values: RefCell<Vec<(BK, u16, u16)>>,
    pub rec_values: bool,
    /// breaks requested: (kind, value, number of bus events recorded until then)
    pub brk_log: Vec<(BK, u32, usize)>,
}

const P_PLAIN: &[[u8; 2]] = &[];
const P_CTRL: &[[u8; 2]] = &[[0xFB, 0x00], [0xF3, 0x00], [0xFB, 0xFB], [0xED, 0x45], [0xED, 0x4D], [0x00, 0x00], [0xDD, 0x00], [0xFD, 0xDD],
    [0x76, 0x00], [0xFB, 0x76], [0xC9, 0x00], [0xFF, 0x00], [0xED, 0x46], [0xED, 0x56], [0xED, 0x5E], [0xED, 0x57], [0xED, 0x5F], [0xFB, 0xDD],
    [0xDD, 0xFB], [0xD3, 0x10], [0xED, 0x55], [0x3C, 0x37], [0xFB, 0xC9], [0xF3, 0xFB], [0xED, 0x7E]];
const P_BLOCK: &[[u8; 2]] = &[[0xED, 0xB0], [0xED, 0xB8], [0xED, 0xB1], [0xED, 0xB9], [0xED, 0xB2], [0xED, 0xBA], [0xED, 0xB3], [0xED, 0xBB],
    [0xED, 0xA0], [0xED, 0xA8], [0xED, 0xA1], [0xED, 0xA9], [0xED, 0xA2], [0xED, 0xAA], [0xED, 0xA3], [0xED, 0xAB], [0x06, 0x03], [0x0E, 0x04],
    [0xAF, 0x47], [0x3C, 0x4F], [0x10, 0xFC], [0xFB, 0x00], [0x0D, 0x37], [0x3F, 0x05]];
const P_FLAGS: &[[u8; 2]] = &[[0x37, 0x3F], [0x3F, 0x37], [0xB7, 0x37], [0x00, 0x37], [0xF1, 0x37], [0x08, 0x3F], [0xDD, 0x37], [0x27, 0x3F], [0x3C, 0x37],
    [0x3E, 0x28], [0xD9, 0x37], [0xED, 0x44], [0xCB, 0x46], [0xCB, 0x7E], [0x3A, 0x00], [0x32, 0x55], [0x02, 0x37], [0xED, 0x6F], [0xED, 0x67], [0xD6, 0x99]];
const P_PREFIX: &[[u8; 2]] = &[[0xDD, 0xDD], [0xFD, 0xFD], [0xDD, 0xFD], [0xDD, 0xCB], [0xFD, 0xCB], [0xDD, 0xED], [0xFD, 0x21], [0xDD, 0x7E], [0xFD, 0x74],
    [0xDD, 0x36], [0xFD, 0xE3], [0xDD, 0xE9], [0xFD, 0x64], [0xDD, 0x8C], [0xFD, 0x34], [0xED, 0x4A], [0xCB, 0x16], [0xDD, 0xE5], [0xFD, 0xF9]];
pub const STYLES: &[&[[u8; 2]]] = &[P_PLAIN, P_CTRL, P_BLOCK, P_FLAGS, P_PREFIX];

impl TestHost {
    pub fn new() -> Self {
        TestHost {
            cfg: HostCfg::default(), vals: vec![0; 65536], stamp: vec![0; 65536], gen: 0, touched: Vec::new(), rec: true,
            ev: RefCell::new(Vec::new()), hash: std::cell::Cell::new(0), nread: std::cell::Cell::new(0),
            fetches: 0, ios: 0, acks: 0, irq_calls: 0, retis: 0, brks: 0, budget: RUNAWAY,
            values: RefCell::new(Vec::new()), rec_values: false, brk_log: Vec::new(),
        }
    }
    pub fn reset(&mut self, cfg: HostCfg, rec: bool) {
        self.cfg = cfg;
        if self.gen == u32::MAX { self.stamp.iter_mut().for_each(|s| *s = 0); self.gen = 0; }
        self.gen += 1;
        self.touched.clear();
        self.rec = rec;
        self.ev.borrow_mut().clear();
        self.values.borrow_mut().clear();
        self.rec_values = false;
        self.brk_log.clear();
        self.hash.set(0); self.nread.set(0);
        self.fetches = 0; self.ios = 0; self.acks = 0; self.irq_calls = 0; self.retis = 0; self.brks = 0; self.budget = RUNAWAY;
    }
    #[inline]
    pub fn poke(&mut self, a: u16, v: u8) {
        self.vals[a as usize] = v;
        if self.stamp[a as usize] != self.gen { self.stamp[a as usize] = self.gen; self.touched.push(a); }
    }
    #[inline]
    pub fn peek(&self, a: u16) -> u8 {
        if self.stamp[a as usize] == self.gen { return self.vals[a as usize]; }
        let s = STYLES[self.cfg.style as usize % STYLES.len()];
        if !s.is_empty() {
            let h = mix(self.cfg.mem_seed, (a >> 1) as u64);
            if h & 7 != 0 { return s[((h >> 8) % s.len() as u64) as usize][(a & 1) as usize]; }
        }
        (mix(self.cfg.mem_seed, 0x10000 + a as u64) >> 24) as u8
    }
    /// First address, among those poked or written on either side, at which the memories differ.
    pub fn mem_equal(&self, o: &TestHost) -> Option<u16> {
        self.touched.iter().chain(o.touched.iter()).copied().find(|&a| self.peek(a) != o.peek(a))
    }
    #[inline]
    fn push(&self, k: BK, addr: u16, val: u16, aux: u32, ts: Ts) {
        if self.rec { self.ev.borrow_mut().push(BEv { k, addr, val, aux, ts }); }
        if self.rec_values { self.values.borrow_mut().push((k, addr, val)); }
        let n = self.nread.get() + 1;
        self.nread.set(n);
        if n > self.budget { panic!("too many bus accesses in one step (more than {})", self.budget); }
        let h = mix3(self.hash.get(), (k as u64) << 32 | (addr as u64) << 16 | val as u64, (aux as u64) << 32 ^ ts.t ^ (ts.seq as u64) << 44);
        self.hash.set(h);
    }
    fn ws(&self, salt: u64) -> Option<NonZeroU16> {
        if self.cfg.ws_rate == 0 { return None; }
        let h = mix3(self.cfg.ws_seed, salt, self.ios + (self.acks << 32));
        if h % self.cfg.ws_rate != 0 { return None; }
        let v = match (h >> 20) & 15 { 0 => 65535, 1 => 256, 2 => 255, 3 => 1000, x => x as u16 };
        NonZeroU16::new(v)
    }
    pub fn irq_active(&self, t: u64) -> bool {
        match self.cfg.irq {
            Irq::Never => false,
            Irq::Always => true,
            Irq::Periodic { period, len, phase } => (t + phase) % period < len,
            Irq::ByFetch { period } => self.fetches >= (self.acks + 1) * period,
            Irq::Held { first, period } => t >= first + self.acks * period,
        }
    }
}

const IRQ_OPS: &[u8] = &[0xFF, 0xC7, 0xCF, 0x00, 0xFB, 0xDD, 0xFD, 0xED, 0xCB, 0x76, 0xC3, 0xCD, 0xC9, 0xE3, 0x10, 0x18, 0x20, 0xD3, 0xDB, 0xF3,
    0x3E, 0x21, 0x22, 0x2A, 0x36, 0x34, 0xE5, 0xF1, 0x37, 0x3F, 0x27, 0xE9, 0xF9, 0xD9, 0x08, 0xEB, 0xC0, 0xD4, 0xDA, 0xFE];

impl Memory for TestHost {
    type Timestamp = Ts;
    #[inline] fn read_mem(&self, a: u16, ts: Ts) -> u8 {
        let v = self.peek(a);
        self.push(BK::Rd, a, v as u16, 0, ts);
        v
    }
    #[inline] fn read_mem16(&self, a: u16, ts: Ts) -> u16 {
        let v = u16::from_le_bytes([self.peek(a), self.peek(a.wrapping_add(1))]);
        self.push(BK::Rd16, a, v, 0, ts);
        v
    }
    #[inline] fn read_opcode(&mut self, pc: u16, ir: u16, ts: Ts) -> u8 {
        let v = self.peek(pc);
        self.fetches += 1;
        self.push(BK::Op, pc, v as u16, ir as u32, ts);
        v
    }
    #[inline] fn write_mem(&mut self, a: u16, v: u8, ts: Ts) {
        self.push(BK::Wr, a, v as u16, 0, ts);
        if a >= self.cfg.rom { self.poke(a, v); }
    }
    #[inline] fn read_debug(&self, a: u16) -> u8 { self.peek(a) }
}

impl Io for TestHost {
    type Timestamp = Ts;
    type WrIoBreak = u32;
    type RetiBreak = u32;
    fn read_io(&mut self, port: u16, ts: Ts) -> (u8, Option<NonZeroU16>) {
        let h = mix3(self.cfg.io_seed, port as u64, self.ios);
        let v = if h & 0xF000 == 0 { [0, 0xFF, 0x80, 0x7F][(h >> 30) as usize & 3] } else { h as u8 };
        let ws = self.ws(port as u64);
        self.push(BK::In, port, v as u16, ws.map_or(0, |w| w.get() as u32), ts);
        self.ios += 1;
        (v, ws)
    }
    fn write_io(&mut self, port: u16, data: u8, ts: Ts) -> (Option<u32>, Option<NonZeroU16>) {
        let ws = self.ws(port as u64 + 0x10000);
        let h = mix3(self.cfg.io_seed ^ 0x5555, self.ios, 1);
        self.push(BK::Out, port, data as u16, ws.map_or(0, |w| w.get() as u32), ts);
        let brk = if self.cfg.brk_rate != 0 && h % self.cfg.brk_rate == 0 { Some((h >> 32) as u32 ^ port as u32) } else { None };
        if let Some(v) = brk { self.brks += 1; let n = self.ev.borrow().len(); self.brk_log.push((BK::Out, v, n)); }
        self.ios += 1;
        (brk, ws)
    }
    fn is_irq(&mut self, ts: Ts) -> bool {
        self.irq_calls += 1;
        self.irq_active(ts.t)
    }
    fn irq_data(&mut self, pc: u16, ts: Ts) -> (u8, Option<NonZeroU16>) {
        let h = mix3(self.cfg.io_seed ^ 0xAAAA, self.acks, 7);
        let v = match self.cfg.irq_style {
            0 => 0xFF,
            1 => h as u8,
            2 => IRQ_OPS[(h >> 8) as usize % IRQ_OPS.len()],
            _ => 0xC7 | (h as u8 & 0x38),
        };
        let ws = self.ws(0x20000);
        self.push(BK::IrqData, pc, v as u16, ws.map_or(0, |w| w.get() as u32), ts);
        self.acks += 1;
        (v, ws)
    }
    fn reti(&mut self, address: u16, ts: Ts) -> Option<u32> {
        self.push(BK::Reti, address, 0, 0, ts);
        let h = mix3(self.cfg.io_seed ^ 0x1234, self.retis, 3);
        self.retis += 1;
        if self.cfg.reti_rate != 0 && h % self.cfg.reti_rate == 0 {
            let v = (h >> 32) as u32 ^ address as u32;
            self.brks += 1; let n = self.ev.borrow().len(); self.brk_log.push((BK::Reti, v, n));
            Some(v)
        } else { None }
    }
}
