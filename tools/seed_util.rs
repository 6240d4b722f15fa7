// ---- shared helpers of the demonstration (a tiny host and clock) ----
#[allow(unused_imports)]
use std::num::{NonZeroU16, NonZeroU8, Wrapping};
#[allow(unused_imports)]
use z80emu::{host::*, opconsts, *};

#[allow(dead_code)]
pub struct Bus {
    pub mem: Vec<u8>,
    pub log: Vec<String>,
    pub irq: bool,
    pub irq_from: i32,
    pub vec: u8,
    pub inp: u8,
    pub io_wait: u16,
    pub out_break: bool,
    pub reti_break: bool,
}

#[allow(dead_code)]
impl Bus {
    pub fn new(at: u16, code: &[u8]) -> Bus {
        let mut b = Bus { mem: vec![0; 65536], log: vec![], irq: false, irq_from: i32::MIN, vec: 0xFF, inp: 0xFF,
                          io_wait: 0, out_break: false, reti_break: false };
        b.put(at, code);
        b
    }
    pub fn put(&mut self, at: u16, code: &[u8]) {
        for (i, c) in code.iter().enumerate() {
            self.mem[at.wrapping_add(i as u16) as usize] = *c;
        }
    }
}

impl Io for Bus {
    type Timestamp = i32;
    type WrIoBreak = u8;
    type RetiBreak = u16;
    fn read_io(&mut self, port: u16, _ts: i32) -> (u8, Option<NonZeroU16>) {
        self.log.push(format!("in {:04x}", port));
        (self.inp, NonZeroU16::new(self.io_wait))
    }
    fn write_io(&mut self, port: u16, data: u8, _ts: i32) -> (Option<u8>, Option<NonZeroU16>) {
        self.log.push(format!("out {:04x} {:02x}", port, data));
        (if self.out_break { Some(data) } else { None }, NonZeroU16::new(self.io_wait))
    }
    fn is_irq(&mut self, ts: i32) -> bool { self.irq && ts >= self.irq_from }
    fn irq_data(&mut self, _pc: u16, _ts: i32) -> (u8, Option<NonZeroU16>) { (self.vec, None) }
    fn reti(&mut self, addr: u16, _ts: i32) -> Option<u16> {
        if self.reti_break { Some(addr) } else { None }
    }
}

impl Memory for Bus {
    type Timestamp = i32;
    fn write_mem(&mut self, addr: u16, val: u8, _ts: i32) { self.mem[addr as usize] = val; }
    fn read_debug(&self, addr: u16) -> u8 { self.mem[addr as usize] }
}

/// A T-state counter which also records each cycle.
#[derive(Default)]
#[allow(dead_code)]
pub struct Clk { pub t: i32, pub log: Vec<String> }

impl Clock for Clk {
    type Limit = i32;
    type Timestamp = i32;
    fn is_past_limit(&self, limit: i32) -> bool { self.t >= limit }
    fn add_irq(&mut self, a: u16) -> i32 { self.log.push(format!("irq {:04x}", a)); self.t += 6; self.t }
    fn add_no_mreq(&mut self, a: u16, n: NonZeroU8) { self.log.push(format!("{:04x}:{}", a, n)); self.t += n.get() as i32; }
    fn add_m1(&mut self, a: u16) -> i32 { self.log.push(format!("m1 {:04x}", a)); self.t += 4; self.t }
    fn add_mreq(&mut self, a: u16) -> i32 { self.log.push(format!("{:04x}:3", a)); self.t += 3; self.t }
    fn add_io(&mut self, a: u16) -> i32 { self.log.push(format!("io {:04x}", a)); self.t += 4; self.t }
    fn add_wait_states(&mut self, a: u16, n: NonZeroU16) { self.log.push(format!("wait {:04x} {}", a, n)); self.t += n.get() as i32; }
    fn as_timestamp(&self) -> i32 { self.t }
}

#[allow(dead_code)]
pub const NODEB: Option<fn(CpuDebug)> = None;

#[allow(dead_code)]
pub fn step<C: Cpu>(cpu: &mut C, bus: &mut Bus, clk: &mut Clk) -> z80emu::host::Result<u8, u16> {
    cpu.execute_next(bus, clk, NODEB)
}
