//! C19 (TsCounter), C20 (forwarding macros and default trait methods), C21 (codes, enums, flags and opcode constants).
use crate::hist::*;
use crate::host::*;
use crate::model::Out;
use crate::p_instr::*;
use crate::runner::*;
use crate::state::*;
use crate::tape::*;
use crate::with_flavour;
use std::cell::RefCell;
use std::convert::TryFrom;
use std::num::{NonZeroU16, NonZeroU8, Wrapping};
use z80emu::host::{cycles, BreakCause, TsCounter};
use z80emu::opconsts::*;
use z80emu::*;

// ---------------------------------------------------------------- C19
pub trait Num: Copy + PartialEq + PartialOrd + Ord + std::fmt::Debug + Default + std::hash::Hash {
    const BITS: u32;
    const SIGNED: bool;
    const NAME: &'static str;
    fn of(b: u128) -> Self;
    fn bits(self) -> u128;
}
macro_rules! num { ($($t:ident $s:expr),*) => { $( impl Num for $t {
    const BITS: u32 = $t::BITS; const SIGNED: bool = $s; const NAME: &'static str = stringify!($t);
    fn of(b: u128) -> Self { b as $t }
    fn bits(self) -> u128 { if Self::BITS == 128 { self as u128 } else { self as u128 & ((1u128 << Self::BITS % 128) - 1) } }
} )* } }
num!(u16 false, u32 false, u64 false, u128 false, usize false, i32 true, i64 true, i128 true);

fn mask<T: Num>(v: u128) -> u128 { if T::BITS == 128 { v } else { v & ((1u128 << (T::BITS % 128)) - 1) } }
/// a key in which the numeric order of the type is the order of u128
fn key<T: Num>(v: u128) -> u128 { let m = mask::<T>(v); if T::SIGNED { mask::<T>(m ^ (1u128 << (T::BITS - 1))) } else { m } }

fn start<T: Num>(w: u64) -> u128 {
    let top = 1u128 << (T::BITS - 1);
    let d = (w >> 8) as u128 & 0x1FF;
    mask::<T>(match w & 7 {
        0 => d,
        1 => 0u128.wrapping_sub(d),
        2 => top.wrapping_sub(d),
        3 => top.wrapping_add(d),
        4 => 0xFFFFu128.wrapping_sub(d),
        5 => 0xFFFF_FFFFu128.wrapping_sub(d),
        6 => mix(w, 1) as u128,
        _ => (mix(w, 2) as u128) << 64 | mix(w, 3) as u128,
    })
}

fn c19_ops<T>(w: &[u64], ops: &[u64]) -> Result<(), String>
where T: Num + From<u8> + From<u16> + serde::Serialize + serde::de::DeserializeOwned, Wrapping<T>: std::ops::AddAssign + std::ops::Add<Output = Wrapping<T>>,
    TsCounter<T>: serde::Serialize + serde::de::DeserializeOwned + std::fmt::Debug
{
    let mut v = start::<T>(w[0]);
    let m = mask::<T>;
    let z: TsCounter<T> = Default::default();
    if z.as_timestamp().bits() != 0 { return Err(format!("default {:?}", z)); }
    let mut c = match w[0] >> 60 & 3 { 0 => TsCounter::from(T::of(v)), 1 => TsCounter::from(Wrapping(T::of(v))), 2 => TsCounter(Wrapping(T::of(v))), _ => { let mut x: TsCounter<T> = Default::default(); *x = Wrapping(T::of(v)); x } };
    for (i, o) in ops.iter().enumerate() {
        let a = (o >> 8) as u16;
        let n = (o >> 24) as u16;
        let v_before = v;
        let bad = |what: &str, got: u128, want: u128| Err(format!("op {} {} on {} = {:#x}: {:#x}, expected {:#x}", i, what, T::NAME, v_before, got, want));
        macro_rules! ret { ($what:expr, $got:expr, $want:expr, $add:expr) => { {
            let g = $got.bits(); let e = m(v.wrapping_add($want)); if g != e { return bad(concat!($what, " return"), g, e); }
            let g = c.as_timestamp().bits(); let e = m(v.wrapping_add($add)); if g != e { return bad(concat!($what, " advance"), g, e); }
            v = e;
        } } }
        match o % 9 {
            0 => ret!("add_m1", c.add_m1(a), 4, 4),
            1 => ret!("add_mreq", c.add_mreq(a), 3, 3),
            2 => ret!("add_io", c.add_io(a), 1, 4),
            3 => ret!("add_irq", c.add_irq(a), 2, 6),
            4 => { let k = NonZeroU8::new((n as u8).max(1)).unwrap(); ret!("add_no_mreq", { c.add_no_mreq(a, k); T::of(v) }, 0, k.get() as u128) }
            5 => { let k = NonZeroU16::new(n.max(1)).unwrap(); ret!("add_wait_states", { c.add_wait_states(a, k); T::of(v) }, 0, k.get() as u128) }
            6 => {
                let l = match n & 3 { 0 => v, 1 => m(v.wrapping_add(1)), 2 => m(v.wrapping_sub(1)), _ => start::<T>(mix(*o, 5)) };
                let (got, want) = (c.is_past_limit(T::of(l)), key::<T>(v) >= key::<T>(l));
                if got != want { return Err(format!("op {}: {} {:#x} is_past_limit({:#x}) = {}", i, T::NAME, v, l, got)); }
                let d = TsCounter::from(T::of(l));
                if c.cmp(&d) != key::<T>(v).cmp(&key::<T>(l)) || c.partial_cmp(&d) != Some(c.cmp(&d)) || (c == d) != (v == l) { return Err(format!("op {}: order of {} {:#x} and {:#x}", i, T::NAME, v, l)); }
            }
            7 => {
                let js = serde_json::to_string(&c).map_err(|e| e.to_string())?;
                let jt = serde_json::to_string(&T::of(v)).map_err(|e| e.to_string())?;
                if js != jt { return Err(format!("op {}: {} {:#x} serialized as {}, the number as {}", i, T::NAME, v, js, jt)); }
                let d: TsCounter<T> = serde_json::from_str(&js).map_err(|e| format!("op {}: {} does not deserialize: {}", i, js, e))?;
                if d != c { return Err(format!("op {}: {} deserialized as {:?}", i, js, d)); }
                let bs = bincode::serialize(&c).map_err(|e| e.to_string())?;
                let d: TsCounter<T> = bincode::deserialize(&bs).map_err(|e| format!("op {}: {:?} does not deserialize: {}", i, bs, e))?;
                if d != c { return Err(format!("op {}: {:02x?} deserialized as {:?}", i, bs, d)); }
                c = d;
            }
            _ => {
                let x = c; // Copy
                let y = c.clone();
                if x != y || (x.0).0.bits() != v || (*x).0.bits() != v { return bad("copy/deref", (*x).0.bits(), v); }
                match n & 3 {
                    0 => { *c = Wrapping(T::of(start::<T>(mix(*o, 9)))); v = start::<T>(mix(*o, 9)); }
                    1 => { c.0 = Wrapping(T::of(m(v.wrapping_add(n as u128)))); v = m(v.wrapping_add(n as u128)); }
                    2 => { *c += Wrapping(T::from(n)); v = m(v.wrapping_add(n as u128)); }
                    _ => {}
                }
                if c.as_timestamp().bits() != v { return bad("assignment", c.as_timestamp().bits(), v); }
            }
        }
    }
    Ok(())
}

macro_rules! with_num { ($n:expr, $f:ident, ($($a:expr),*)) => { match $n % 8 {
    0 => $f::<u16>($($a),*), 1 => $f::<u32>($($a),*), 2 => $f::<u64>($($a),*), 3 => $f::<u128>($($a),*),
    4 => $f::<usize>($($a),*), 5 => $f::<i32>($($a),*), 6 => $f::<i64>($($a),*), _ => $f::<i128>($($a),*) } } }
const NUMS: [&str; 8] = ["u16", "u32", "u64", "u128", "usize", "i32", "i64", "i128"];

fn c19(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let n = case.h[0];
    ctx.describe(|| format!("{} start word {:x} ops {:x?}", NUMS[n as usize % 8], case.h[1], case.ops));
    ctx.nontrivial = case.ops.iter().any(|o| o % 9 < 6);
    ctx.class(NUMS[n as usize % 8]);
    with_num!(n, c19_ops, (&case.h[1..], &case.ops))
}

/// A TestHost seen through timestamps of another type.
struct TsHost<T> { h: TestHost, log: RefCell<Vec<T>> }
impl<T: Copy> Memory for TsHost<T> {
    type Timestamp = T;
    fn read_mem(&self, a: u16, ts: T) -> u8 { self.log.borrow_mut().push(ts); self.h.read_mem(a, Ts::default()) }
    fn read_mem16(&self, a: u16, ts: T) -> u16 { self.log.borrow_mut().push(ts); self.h.read_mem16(a, Ts::default()) }
    fn read_opcode(&mut self, a: u16, ir: u16, ts: T) -> u8 { self.log.borrow_mut().push(ts); self.h.read_opcode(a, ir, Ts::default()) }
    fn write_mem(&mut self, a: u16, v: u8, ts: T) { self.log.borrow_mut().push(ts); self.h.write_mem(a, v, Ts::default()) }
    fn read_debug(&self, a: u16) -> u8 { self.h.read_debug(a) }
}
impl<T: Copy> Io for TsHost<T> {
    type Timestamp = T;
    type WrIoBreak = u32;
    type RetiBreak = u32;
    fn read_io(&mut self, p: u16, ts: T) -> (u8, Option<NonZeroU16>) { self.log.borrow_mut().push(ts); self.h.read_io(p, Ts::default()) }
    fn write_io(&mut self, p: u16, v: u8, ts: T) -> (Option<u32>, Option<NonZeroU16>) { self.log.borrow_mut().push(ts); self.h.write_io(p, v, Ts::default()) }
    fn is_irq(&mut self, _: T) -> bool { self.h.is_irq(Ts::default()) }
    fn irq_data(&mut self, pc: u16, ts: T) -> (u8, Option<NonZeroU16>) { self.log.borrow_mut().push(ts); self.h.irq_data(pc, Ts::default()) }
    fn reti(&mut self, a: u16, ts: T) -> Option<u32> { self.log.borrow_mut().push(ts); self.h.reti(a, Ts::default()) }
}

/// The same instructions on a TsCounter<T> and on the flat reference clock.
fn c19_cpu<T>(s: &Setup, first: u64, ops: &[HOp], ctx: &mut Ctx) -> Result<(), String>
where T: Num + From<u8> + From<u16>, Wrapping<T>: std::ops::AddAssign + std::ops::Add<Output = Wrapping<T>> {
    thread_local! { static SPARE: RefCell<Option<TestHost>> = RefCell::new(None); }
    let mut a: Z80Any = make(s.fl, &s.st, s.q);
    let mut b = a.clone();
    let h = SPARE.with(|p| p.borrow_mut().take()).unwrap_or_else(TestHost::new);
    let mut th: TsHost<T> = TsHost { h, log: RefCell::new(Vec::new()) };
    th.h.reset(s.cfg, false);
    let v0 = start::<T>(first);
    let mut tk = TsCounter::from(T::of(v0));
    let Ctx { h1, c1, .. } = ctx;
    h1.reset(s.cfg, true); c1.reset(0, Cont::default(), false);
    let mut res = Ok(());
    for (i, op) in ops.iter().enumerate() {
        h1.ev.borrow_mut().clear(); th.log.borrow_mut().clear();
        let (ra, rb) = match op {
            HOp::Place(code) => { let pc = a.get_pc(); for (i, v) in code.iter().enumerate() { let x = pc.wrapping_add(i as u16); h1.poke(x, *v); th.h.poke(x, *v); } continue; }
            HOp::Run(d) => {
                let now = tk.as_timestamp().bits();
                // a limit beyond (or just below) the wrap-around of the counter is never observed as reached
                if key::<T>(now) > mask::<T>(u128::MAX) - *d as u128 - 100 { continue; }
                let lim = c1.t + *d;
                (OpRes::Out(out_of(a.execute_with_limit(h1, c1, lim))), OpRes::Out(out_of(b.execute_with_limit(&mut th, &mut tk, T::of(now.wrapping_add(*d as u128))))))
            }
            HOp::Exec(code) => (OpRes::Out(exec(&mut a, h1, c1, *code)), OpRes::Out(out_of(b.execute_instruction::<_, _, NoDbg>(&mut th, &mut tk, None, *code)))),
            HOp::Irq => (OpRes::Irq(a.irq::<_, _, NoDbg>(h1, c1, None).map(out_of)), OpRes::Irq(b.irq::<_, _, NoDbg>(&mut th, &mut tk, None).map(out_of))),
            HOp::Nmi => (OpRes::Nmi(a.nmi(h1, c1)), OpRes::Nmi(b.nmi(&mut th, &mut tk))),
            _ => (OpRes::Out(step(&mut a, h1, c1)), OpRes::Out(out_of(b.execute_next::<_, _, NoDbg>(&mut th, &mut tk, None)))),
        };
        let want: Vec<T> = h1.ev.borrow().iter().map(|e| T::of(v0.wrapping_add(e.ts.t as u128))).collect();
        let end = T::of(v0.wrapping_add(c1.t as u128));
        if ra != rb || a != b { res = Err(format!("op {} {:x?}: {:?} on the reference clock, {:?} on TsCounter<{}>; {}", i, op, ra, rb, T::NAME, read_state(&a).diff(&read_state(&b)))); break; }
        if tk.as_timestamp() != end { res = Err(format!("op {} {:x?}: TsCounter<{}> started at {:#x} is {:?}, expected {:?}", i, op, T::NAME, v0, tk, end)); break; }
        if want != *th.log.borrow() { res = Err(format!("op {} {:x?}: timestamps on TsCounter<{}> started at {:#x}: {:?}, expected {:?}", i, op, T::NAME, v0, th.log.borrow(), want)); break; }
    }
    SPARE.with(|p| *p.borrow_mut() = Some(th.h));
    ctx.nontrivial = ctx.h1.fetches >= 2;
    res
}

fn c19_prog(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let n = t.w(); let first = t.w();
    let mut s = setup(&mut t);
    if s.st.halt || s.st.ei || s.st.pfx != 0 { s.st.halt = false; }
    s.cfg.irq = match n >> 8 & 3 { 0 => Irq::Never, 1 => Irq::Always, k => Irq::ByFetch { period: k * 3 } };
    s.cfg.ws_rate = 0;
    const MIX: Mix = [8, 6, 2, 2, 1, 8, 0];
    let ops: Vec<HOp> = case.ops.iter().map(|w| hop(*w, &MIX)).collect();
    ctx.describe(|| format!("{} start {:x} {:x?} ops {:x?}", NUMS[n as usize % 8], first, s, ops));
    ctx.class(NUMS[n as usize % 8]);
    with_num!(n, c19_cpu, (&s, first, &ops, ctx))
}

// ---------------------------------------------------------------- C20
// Clock wrappers, one per documented form of the macros
pub struct KAll<C>(pub C);
impl<C: Clock> Clock for KAll<C> { forward_host_clock_types! { @ => C } forward_host_clock_methods! { @ => |c| c.0 } }
pub struct KRefMut<C> { c: C }
impl<C> KRefMut<C> { fn cref(&self) -> &C { &self.c } fn cmut(&mut self) -> &mut C { &mut self.c } }
impl<C: Clock> Clock for KRefMut<C> {
    forward_host_clock_types! { (Limit, Timestamp) => C }
    forward_host_clock_methods! { @ref => |c| c.cref() }
    forward_host_clock_methods! { @mut => |c| c.cmut() }
}
pub struct KLists<C>(u8, C);
impl<C: Clock> Clock for KLists<C> {
    forward_host_clock_types! { (Limit Timestamp) => C }
    forward_host_clock_methods! { (is_past_limit add_irq add_no_mreq) => |c| c.1 }
    forward_host_clock_methods! { (add_m1, add_mreq, add_io, add_wait_states) => |c| c.1 }
    forward_host_clock_methods! { as_timestamp => |c| c.1 }
}
pub struct KSingle<'a, C>(&'a mut C);
impl<C: Clock> Clock for KSingle<'_, C> {
    forward_host_clock_types! { Limit => C }
    forward_host_clock_types! { Timestamp => C }
    forward_host_clock_methods! { is_past_limit => |c| c.0 }
    forward_host_clock_methods! { add_irq => |c| c.0 }
    forward_host_clock_methods! { add_no_mreq => |c| c.0 }
    forward_host_clock_methods! { add_m1 => |c| c.0 }
    forward_host_clock_methods! { add_mreq => |c| c.0 }
    forward_host_clock_methods! { add_io => |c| c.0 }
    forward_host_clock_methods! { add_wait_states => |c| c.0 }
    forward_host_clock_methods! { as_timestamp => |c| c.0 }
}
// Bus wrappers
pub struct BAll<B>(pub B);
impl<B: Io> Io for BAll<B> { forward_host_io_types! { @ => B } forward_host_io_methods! { @ => |b| b.0 } }
impl<B: Memory> Memory for BAll<B> { forward_host_memory_types! { @ => B } forward_host_memory_methods! { @ => |b| b.0 } }
pub struct BRef<'a, B> { bus: &'a mut B }
impl<B> BRef<'_, B> { fn bm(&mut self) -> &mut B { &mut *self.bus } fn br(&self) -> &B { &*self.bus } }
impl<B: Io> Io for BRef<'_, B> {
    type Timestamp = <B as Io>::Timestamp;
    forward_host_io_types! { (WrIoBreak RetiBreak) => B }
    forward_host_io_methods! { (write_io, read_io, is_irq, reti, irq_data) => |b| b.bm() }
}
impl<B: Memory> Memory for BRef<'_, B> {
    forward_host_memory_types! { (Timestamp) => B }
    forward_host_memory_methods! { @ref => |b| b.br() }
    forward_host_memory_methods! { @mut => |b| b.bm() }
}
pub struct BLists<B> { pad: u16, inner: B }
impl<B: Io> Io for BLists<B> {
    forward_host_io_types! { (Timestamp, WrIoBreak) => B }
    forward_host_io_types! { RetiBreak => B }
    forward_host_io_methods! { (read_io write_io) => |b| b.inner }
    forward_host_io_methods! { is_irq => |b| b.inner }
    forward_host_io_methods! { irq_data => |b| b.inner }
    forward_host_io_methods! { reti => |b| b.inner }
}
impl<B: Memory> Memory for BLists<B> {
    forward_host_memory_types! { Timestamp => B }
    forward_host_memory_methods! { (read_opcode read_mem) => |b| b.inner }
    forward_host_memory_methods! { (read_mem16, write_mem) => |b| b.inner }
    forward_host_memory_methods! { read_debug => |b| b.inner }
}
pub struct BSingle<B>(B, u8);
impl<B: Io> Io for BSingle<B> {
    forward_host_io_types! { Timestamp => B }
    forward_host_io_types! { WrIoBreak => B }
    forward_host_io_types! { RetiBreak => B }
    forward_host_io_methods! { read_io => |b| b.0 }
    forward_host_io_methods! { write_io => |b| b.0 }
    forward_host_io_methods! { (is_irq) => |b| b.0 }
    forward_host_io_methods! { (irq_data, reti) => |b| b.0 }
}
impl<B: Memory> Memory for BSingle<B> {
    forward_host_memory_types! { @ => B }
    forward_host_memory_methods! { read_opcode => |b| b.0 }
    forward_host_memory_methods! { read_mem => |b| b.0 }
    forward_host_memory_methods! { read_mem16 => |b| b.0 }
    forward_host_memory_methods! { write_mem => |b| b.0 }
    forward_host_memory_methods! { (read_debug) => |b| b.0 }
}

/// A recorder: every call and its arguments, with a result computed from them.
#[derive(Default)]
struct Probe { log: RefCell<Vec<(&'static str, [u64; 3])>>, seed: u64 }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct PTs(u32, i8);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct PLim(i64);
impl PTs { fn w(self) -> u64 { (self.0 as u64) << 8 | self.1 as u8 as u64 } }
impl Probe {
    fn put(&self, n: &'static str, a: [u64; 3]) -> u64 { self.log.borrow_mut().push((n, a)); mix3(mix3(self.seed, n.len() as u64, n.as_bytes()[n.len() / 2] as u64), mix3(a[0], a[1], a[2]), 3) }
}
fn pts(r: u64) -> PTs { PTs(r as u32, (r >> 40) as i8) }
fn ows(r: u64) -> Option<NonZeroU16> { NonZeroU16::new(if r & 3 == 0 { 0 } else { (r >> 20) as u16 }) }
impl Clock for Probe {
    type Limit = PLim;
    type Timestamp = PTs;
    fn is_past_limit(&self, l: PLim) -> bool { self.put("is_past_limit", [l.0 as u64, 0, 0]) & 1 == 0 }
    fn add_irq(&mut self, a: u16) -> PTs { pts(self.put("add_irq", [a as u64, 0, 0])) }
    fn add_no_mreq(&mut self, a: u16, n: NonZeroU8) { self.put("add_no_mreq", [a as u64, n.get() as u64, 0]); }
    fn add_m1(&mut self, a: u16) -> PTs { pts(self.put("add_m1", [a as u64, 0, 0])) }
    fn add_mreq(&mut self, a: u16) -> PTs { pts(self.put("add_mreq", [a as u64, 0, 0])) }
    fn add_io(&mut self, a: u16) -> PTs { pts(self.put("add_io", [a as u64, 0, 0])) }
    fn add_wait_states(&mut self, a: u16, n: NonZeroU16) { self.put("add_wait_states", [a as u64, n.get() as u64, 0]); }
    fn as_timestamp(&self) -> PTs { pts(self.put("as_timestamp", [0; 3])) }
}
impl Io for Probe {
    type Timestamp = PTs;
    type WrIoBreak = (u8, i16);
    type RetiBreak = char;
    fn read_io(&mut self, p: u16, t: PTs) -> (u8, Option<NonZeroU16>) { let r = self.put("read_io", [p as u64, t.w(), 0]); (r as u8, ows(r >> 8)) }
    fn write_io(&mut self, p: u16, v: u8, t: PTs) -> (Option<(u8, i16)>, Option<NonZeroU16>) {
        let r = self.put("write_io", [p as u64, v as u64, t.w()]);
        (if r & 1 == 0 { Some((r as u8, (r >> 8) as i16)) } else { None }, ows(r >> 9))
    }
    fn is_irq(&mut self, t: PTs) -> bool { self.put("is_irq", [t.w(), 0, 0]) & 1 == 0 }
    fn irq_data(&mut self, pc: u16, t: PTs) -> (u8, Option<NonZeroU16>) { let r = self.put("irq_data", [pc as u64, t.w(), 0]); (r as u8, ows(r >> 8)) }
    fn reti(&mut self, a: u16, t: PTs) -> Option<char> { let r = self.put("reti", [a as u64, t.w(), 0]); if r & 1 == 0 { char::from_u32((r >> 8) as u32 & 0x7FF) } else { None } }
}
impl Memory for Probe {
    type Timestamp = PTs;
    fn read_mem(&self, a: u16, t: PTs) -> u8 { self.put("read_mem", [a as u64, t.w(), 0]) as u8 }
    fn read_mem16(&self, a: u16, t: PTs) -> u16 { self.put("read_mem16", [a as u64, t.w(), 0]) as u16 }
    fn read_opcode(&mut self, a: u16, ir: u16, t: PTs) -> u8 { self.put("read_opcode", [a as u64, ir as u64, t.w()]) as u8 }
    fn write_mem(&mut self, a: u16, v: u8, t: PTs) { self.put("write_mem", [a as u64, v as u64, t.w()]); }
    fn read_debug(&self, a: u16) -> u8 { self.put("read_debug", [a as u64, 0, 0]) as u8 }
}
fn call_clock<K: Clock<Limit = PLim, Timestamp = PTs>>(k: &mut K, ops: &[u64]) -> Vec<String> {
    ops.iter().map(|o| {
        let a = (o >> 8) as u16; let n = (o >> 24) as u16;
        match o % 8 {
            0 => format!("{:?}", k.add_irq(a)),
            1 => format!("{:?}", k.add_no_mreq(a, NonZeroU8::new((n as u8).max(1)).unwrap())),
            2 => format!("{:?}", k.add_m1(a)),
            3 => format!("{:?}", k.add_mreq(a)),
            4 => format!("{:?}", k.add_io(a)),
            5 => format!("{:?}", k.add_wait_states(a, NonZeroU16::new(n.max(1)).unwrap())),
            6 => format!("{:?}", k.as_timestamp()),
            _ => format!("{:?}", k.is_past_limit(PLim((o >> 3) as i64))),
        }
    }).collect()
}
fn call_bus<B: Memory<Timestamp = PTs> + Io<Timestamp = PTs, WrIoBreak = (u8, i16), RetiBreak = char>>(b: &mut B, ops: &[u64]) -> Vec<String> {
    ops.iter().map(|o| {
        let a = (o >> 8) as u16; let v = (o >> 24) as u8; let x = (o >> 20) as u16;
        let t = pts(mix(*o, 3));
        match o % 10 {
            0 => format!("{:?}", b.read_io(a, t)),
            1 => format!("{:?}", b.write_io(a, v, t)),
            2 => format!("{:?}", b.is_irq(t)),
            3 => format!("{:?}", b.irq_data(a, t)),
            4 => format!("{:?}", b.reti(a, t)),
            5 => format!("{:?}", b.read_mem(a, t)),
            6 => format!("{:?}", b.read_mem16(a, t)),
            7 => format!("{:?}", b.read_opcode(a, x, t)),
            8 => format!("{:?}", b.write_mem(a, v, t)),
            _ => format!("{:?}", b.read_debug(a)),
        }
    }).collect()
}

fn c20_calls(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let seed = case.h[0];
    let form = (case.h[1] % 6) as usize;
    let ops = &case.ops;
    ctx.describe(|| format!("wrapper form {} calls {:x?}", form, ops));
    ctx.nontrivial = !ops.is_empty();
    ctx.class(["forward all", "@ref/@mut", "lists", "single methods", "nested twice", "nested thrice"][form]);
    let mut d = Probe { seed, ..Default::default() };
    let mut p = Probe { seed, ..Default::default() };
    let (want, got) = (call_clock(&mut d, ops), match form {
        0 => { let mut k = KAll(p); let r = call_clock(&mut k, ops); p = k.0; r }
        1 => { let mut k = KRefMut { c: p }; let r = call_clock(&mut k, ops); p = k.c; r }
        2 => { let mut k = KLists(0, p); let r = call_clock(&mut k, ops); p = k.1; r }
        3 => call_clock(&mut KSingle(&mut p), ops),
        4 => call_clock(&mut KAll(KRefMut { c: KSingle(&mut p) }), ops),
        _ => call_clock(&mut KLists(1, KSingle(&mut KAll(KSingle(&mut p)))), ops),
    });
    if want != got { return Err(format!("clock results: direct {:?} wrapped {:?}", want, got)); }
    if *d.log.borrow() != *p.log.borrow() { return Err(format!("clock calls: direct {:x?} wrapped {:x?}", d.log.borrow(), p.log.borrow())); }
    let mut d = Probe { seed, ..Default::default() };
    let mut p = Probe { seed, ..Default::default() };
    let (want, got) = (call_bus(&mut d, ops), match form {
        0 => { let mut k = BAll(p); let r = call_bus(&mut k, ops); p = k.0; r }
        1 => call_bus(&mut BRef { bus: &mut p }, ops),
        2 => { let mut k = BLists { pad: 1, inner: p }; let r = call_bus(&mut k, ops); p = k.inner; let _ = k.pad; r }
        3 => { let mut k = BSingle(p, 0); let r = call_bus(&mut k, ops); p = k.0; let _ = k.1; r }
        4 => call_bus(&mut BAll(BRef { bus: &mut p }), ops),
        _ => call_bus(&mut BLists { pad: 0, inner: BSingle(BAll(BRef { bus: &mut p }), 1) }, ops),
    });
    if want != got { return Err(format!("bus results: direct {:?} wrapped {:?}", want, got)); }
    if *d.log.borrow() != *p.log.borrow() { return Err(format!("bus calls: direct {:x?} wrapped {:x?}", d.log.borrow(), p.log.borrow())); }
    Ok(())
}

fn apply_gen<C: CpuX, M, K>(op: &HOp, c: &mut C, h: &mut M, k: &mut K, lim: u64) -> OpRes
where M: Memory<Timestamp = Ts> + Io<Timestamp = Ts, WrIoBreak = u32, RetiBreak = u32>, K: Clock<Limit = u64, Timestamp = Ts> {
    match op {
        HOp::Run(_) => OpRes::Out(out_of(c.execute_with_limit(h, k, lim))),
        HOp::Exec(code) => OpRes::Out(out_of(c.execute_instruction::<_, _, NoDbg>(h, k, None, *code))),
        HOp::Irq => OpRes::Irq(c.irq::<_, _, NoDbg>(h, k, None).map(out_of)),
        HOp::Nmi => OpRes::Nmi(c.nmi(h, k)),
        HOp::Step => OpRes::Out(out_of(c.execute_next::<_, _, NoDbg>(h, k, None))),
        HOp::Reset => { c.reset(); OpRes::None }
        _ => OpRes::Out(out_of(c.execute_next(h, k, Some(|_| ())))),
    }
}

fn run_wrapped<C: CpuX + std::fmt::Debug>(s: &Setup, ops: &[HOp], form: usize, ctx: &mut Ctx) -> Result<(), String> {
    let mut a: C = make(s.fl, &s.st, s.q);
    let mut b = a.clone();
    let Ctx { h1, c1, h2, c2, .. } = &mut *ctx;
    for (h, k) in [(&mut *h1, &mut *c1), (&mut *h2, &mut *c2)] { h.reset(s.cfg, true); k.reset(s.t0, s.cont, true); }
    for (i, op) in ops.iter().enumerate() {
        if let HOp::Place(code) = op { let pc = a.get_pc(); for (i, v) in code.iter().enumerate() { let x = pc.wrapping_add(i as u16); h1.poke(x, *v); h2.poke(x, *v); } continue; }
        clear_events(h1, c1); clear_events(h2, c2);
        let lim = c1.t + match op { HOp::Run(d) => *d, _ => 0 };
        let ra = apply_gen(op, &mut a, h1, c1, lim);
        let rb = match form {
            0 => apply_gen(op, &mut b, &mut BAll(BRef { bus: h2 }), &mut KAll(KSingle(c2)), lim),
            1 => apply_gen(op, &mut b, &mut BRef { bus: h2 }, &mut KRefMut { c: KSingle(c2) }, lim),
            2 => apply_gen(op, &mut b, &mut BLists { pad: 0, inner: BRef { bus: h2 } }, &mut KLists(0, KSingle(c2)), lim),
            _ => apply_gen(op, &mut b, &mut BSingle(BRef { bus: h2 }, 0), &mut KSingle(c2), lim),
        };
        if ra != rb { return Err(format!("op {} {:x?}: direct {:?} wrapped {:?}", i, op, ra, rb)); }
        if a != b { return Err(format!("op {} {:x?}: direct {:?} wrapped {:?}", i, op, a, b)); }
        if let Some(d) = diff_trace(h1, c1, h2, c2) { return Err(format!("op {} {:x?}: (cpu = direct, reference = wrapped) {}", i, op, d)); }
        if h1.irq_calls != h2.irq_calls { return Err(format!("op {} {:x?}: is_irq called {} times directly, {} times wrapped", i, op, h1.irq_calls, h2.irq_calls)); }
    }
    if let Some(x) = h1.mem_equal(h2) { return Err(format!("memory differs at {:04x}", x)); }
    ctx.nontrivial = ctx.h1.fetches >= 2;
    Ok(())
}

fn c20_prog(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let s = setup(&mut t);
    let form = (t.w() % 4) as usize;
    const MIX: Mix = [8, 6, 2, 2, 1, 8, 0];
    let ops: Vec<HOp> = case.ops.iter().map(|w| hop(*w, &MIX)).collect();
    ctx.describe(|| format!("form {} {:x?} ops {:x?}", form, s, ops));
    with_flavour!(s.fl, run_wrapped, (&s, &ops, form, ctx))
}

// default methods: a memory which only implements read_debug and a host without any method
struct OnlyDebug { seed: u64, calls: std::cell::Cell<u64> }
impl Memory for OnlyDebug { type Timestamp = Ts; fn read_debug(&self, a: u16) -> u8 { self.calls.set(self.calls.get() + 1); mix(self.seed, a as u64) as u8 } }
impl Io for OnlyDebug { type Timestamp = Ts; type WrIoBreak = u32; type RetiBreak = u32; }
struct Nothing;
impl Memory for Nothing { type Timestamp = Ts; }
impl Io for Nothing { type Timestamp = Ts; type WrIoBreak = u32; type RetiBreak = u32; }
/// a memory whose data reads (1), word reads (2) and opcode reads (4) differ from what a debugger sees, implementing only the given methods
fn seen(seed: u64, kind: u8, a: u16) -> u8 { mix(seed ^ (kind as u64) << 40, a as u64) as u8 }
macro_rules! partial {
    ($($name:ident { $($m:ident)* })*) => { $(
        struct $name(u64);
        impl Memory for $name { type Timestamp = Ts; fn read_debug(&self, a: u16) -> u8 { seen(self.0, 0, a) } $(partial!(@ $m);)* }
        impl Io for $name { type Timestamp = Ts; type WrIoBreak = u32; type RetiBreak = u32; }
    )* };
    (@ mem) => { fn read_mem(&self, a: u16, _: Ts) -> u8 { seen(self.0, 1, a) } };
    (@ word) => { fn read_mem16(&self, a: u16, _: Ts) -> u16 { seen(self.0, 2, a) as u16 | (seen(self.0, 2, a.wrapping_add(1)) as u16) << 8 } };
    (@ op) => { fn read_opcode(&mut self, a: u16, _: u16, _: Ts) -> u8 { seen(self.0, 4, a) } };
}
partial! { HasM { mem } HasW { word } HasMW { mem word } HasO { op } HasMO { mem op } HasWO { word op } }
/// the same behaviour, spelled out
struct Spelled { seed: u64, nothing: bool, has: u8 }
impl Spelled { fn at(&self, kind: u8, a: u16) -> u8 { if self.nothing { 0xFF } else { seen(self.seed, self.has & kind, a) } } }
impl Memory for Spelled {
    type Timestamp = Ts;
    fn read_mem(&self, a: u16, _: Ts) -> u8 { self.at(1, a) }
    fn read_mem16(&self, a: u16, _: Ts) -> u16 { self.at(2, a) as u16 | (self.at(2, a.wrapping_add(1)) as u16) << 8 }
    fn read_opcode(&mut self, a: u16, _: u16, _: Ts) -> u8 { self.at(4, a) }
    fn write_mem(&mut self, _: u16, _: u8, _: Ts) {}
    fn read_debug(&self, a: u16) -> u8 { self.at(0, a) }
}
impl Io for Spelled {
    type Timestamp = Ts; type WrIoBreak = u32; type RetiBreak = u32;
    fn read_io(&mut self, _: u16, _: Ts) -> (u8, Option<NonZeroU16>) { (0xFF, None) }
    fn write_io(&mut self, _: u16, _: u8, _: Ts) -> (Option<u32>, Option<NonZeroU16>) { (None, None) }
    fn is_irq(&mut self, _: Ts) -> bool { false }
    fn irq_data(&mut self, _: u16, _: Ts) -> (u8, Option<NonZeroU16>) { (0xFF, None) }
    fn reti(&mut self, _: u16, _: Ts) -> Option<u32> { None }
}

fn run_default<C: CpuX + std::fmt::Debug>(s: &Setup, ops: &[HOp], nothing: bool, has: u8, ctx: &mut Ctx) -> Result<(), String> {
    let mut a: C = make(s.fl, &s.st, s.q);
    let mut b = a.clone();
    let seed = s.cfg.mem_seed;
    let mut sp = Spelled { seed, nothing, has };
    let mut od = OnlyDebug { seed, calls: Default::default() };
    let Ctx { c1, c2, .. } = &mut *ctx;
    c1.reset(s.t0, s.cont, true); c2.reset(s.t0, s.cont, true);
    for (i, op) in ops.iter().enumerate() {
        c1.ev.clear(); c2.ev.clear();
        let lim = c1.t + match op { HOp::Run(d) => *d, _ => 0 };
        let ra = apply_gen(op, &mut a, &mut sp, c1, lim);
        let rb = match has {
            _ if nothing => apply_gen(op, &mut b, &mut Nothing, c2, lim),
            1 => apply_gen(op, &mut b, &mut HasM(seed), c2, lim),
            2 => apply_gen(op, &mut b, &mut HasW(seed), c2, lim),
            3 => apply_gen(op, &mut b, &mut HasMW(seed), c2, lim),
            4 => apply_gen(op, &mut b, &mut HasO(seed), c2, lim),
            5 => apply_gen(op, &mut b, &mut HasMO(seed), c2, lim),
            6 => apply_gen(op, &mut b, &mut HasWO(seed), c2, lim),
            _ => apply_gen(op, &mut b, &mut od, c2, lim),
        };
        if ra != rb || a != b || c1.ev != c2.ev { return Err(format!("op {} {:x?}: spelled-out host (own methods {}, data 1 words 2 opcodes 4) {:?} {:?}, default methods {:?} {:?}", i, op, has, ra, a, rb, b)); }
    }
    ctx.nontrivial = ctx.c1.m1 >= 2;
    Ok(())
}

fn c20_default(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let s = setup(&mut t);
    let m = t.w();
    const MIX: Mix = [8, 6, 2, 2, 1, 0, 0];
    let ops: Vec<HOp> = case.ops.iter().map(|w| hop(*w, &MIX)).collect();
    let has = if m & 3 == 1 { 0 } else { (m >> 2) as u8 % 7 };
    ctx.describe(|| format!("{} and {} {:x?} ops {:x?}", if m & 3 == 0 { "no methods" } else { "read_debug" }, has, s, ops));
    let seed = s.cfg.mem_seed;
    let mut d = OnlyDebug { seed, calls: Default::default() };
    for w in [m, mix(m, 1), s.st.hl as u64, 0xFFFF, 0] {
        let a = w as u16; let ts = Ts { t: w, seq: 3 };
        let b = |a: u16| mix(seed, a as u64) as u8;
        let word = |k: u8| seen(seed, k, a) as u16 | (seen(seed, k, a.wrapping_add(1)) as u16) << 8;
        macro_rules! partially { ($($h:ident $has:expr),*) => { $({
            let mut h = $h(seed);
            let got = (h.read_mem(a, ts), h.read_mem16(a, ts), h.read_opcode(a, !a, ts), h.read_debug(a));
            let want = (seen(seed, $has & 1, a), word($has & 2), seen(seed, $has & 4, a), seen(seed, 0, a));
            if got != want { return Err(format!("memory with own methods {} (data 1, words 2, opcodes 4) at {:04x}: {:x?}, expected {:x?}", $has, a, got, want)); }
        })* } }
        partially!(HasM 1, HasW 2, HasMW 3, HasO 4, HasMO 5, HasWO 6);
        d.write_mem(a, w as u8, ts);
        let got = (d.read_mem(a, ts), d.read_mem16(a, ts), d.read_opcode(a, w as u16 ^ 0x5555, ts), d.read_debug(a));
        let want = (b(a), b(a) as u16 | (b(a.wrapping_add(1)) as u16) << 8, b(a), b(a));
        if got != want { return Err(format!("default memory methods at {:04x}: {:x?}, expected {:x?}", a, got, want)); }
        let got = (Nothing.read_mem(a, ts), Nothing.read_mem16(a, ts), Nothing.read_opcode(a, 0, ts), Nothing.read_debug(a));
        if got != (0xFF, 0xFFFF, 0xFF, 0xFF) { return Err(format!("default memory methods at {:04x}: {:x?}", a, got)); }
        let io = (d.read_io(a, ts), d.write_io(a, w as u8, ts), d.is_irq(ts), d.irq_data(a, ts), d.reti(a, ts));
        if io != ((0xFF, None), (None, None), false, (0xFF, None), None) { return Err(format!("default I/O methods: {:?}", io)); }
    }
    for (c, text) in [(BreakCause::<u64, u64>::Halt, "a HALT instruction was executed"), (BreakCause::WriteIo(m), "an I/O write operation has requested a break"), (BreakCause::Reti(m), "a break was requested at the end of an interrupt service routine")] {
        let r: &str = (&c).into();
        if r != text || c.to_string() != text { return Err(format!("{:?} displays as {:?} / {:?}", c, r, c.to_string())); }
        #[allow(deprecated)]
        let e = { let e: &dyn std::error::Error = &c; (e.description().to_string(), e.source().is_none(), e.to_string()) };
        if e != (text.to_string(), true, text.to_string()) { return Err(format!("{:?} as an error: {:?}", c, e)); }
        let r: &'static str = c.into();
        if r != text { return Err(format!("{:?} instead of {:?}", r, text)); }
    }
    with_flavour!(s.fl, run_default, (&s, &ops, m & 3 == 0, has, ctx))
}

// ---------------------------------------------------------------- C21
fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> { if got == want { Ok(()) } else { Err(format!("{}: {:x?}, expected {:x?}", what, got, want)) } }

const R8: [(Reg8, u8, &str); 7] = [(Reg8::B, 0, "B"), (Reg8::C, 1, "C"), (Reg8::D, 2, "D"), (Reg8::E, 3, "E"), (Reg8::H, 4, "H"), (Reg8::L, 5, "L"), (Reg8::A, 7, "A")];
const STK: [(StkReg16, u8, &str); 4] = [(StkReg16::BC, 0x00, "BC"), (StkReg16::DE, 0x10, "DE"), (StkReg16::HL, 0x20, "HL"), (StkReg16::AF, 0x30, "AF")];
const R16: [(Reg16, u8, &str); 4] = [(Reg16::BC, 0x00, "BC"), (Reg16::DE, 0x10, "DE"), (Reg16::HL, 0x20, "HL"), (Reg16::SP, 0x30, "SP")];
/// (condition, code, name, flag bit, value of the bit that satisfies it)
const CC: [(Condition, u8, &str, u8, bool); 8] = [(Condition::NZ, 0x00, "NZ", 0x40, false), (Condition::Z, 0x08, "Z", 0x40, true), (Condition::NC, 0x10, "NC", 1, false), (Condition::C, 0x18, "C", 1, true),
    (Condition::PO, 0x20, "PO", 4, false), (Condition::PE, 0x28, "PE", 4, true), (Condition::P, 0x30, "P", 0x80, false), (Condition::M, 0x38, "M", 0x80, true)];

struct Fmt8(Reg8, Option<Prefix>);
impl std::fmt::Display for Fmt8 { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.format_with_prefix(f, self.1) } }
struct Fmt16(Reg16, Option<Prefix>);
impl std::fmt::Display for Fmt16 { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.format_with_prefix(f, self.1) } }

/// every code byte, every enum, every flags value
fn c21_codes(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let code = case.h[0] as u8;
    ctx.nontrivial = true;
    ctx.describe(|| format!("code/value {:02x}", code));
    // Reg8
    let want = R8.iter().find(|r| r.1 == code & 7).map(|r| r.0).ok_or(());
    same("Reg8::try_from", Reg8::try_from(code), want)?;
    for (r, c, n) in R8 {
        same("Reg8::to_code", r.to_code(), c)?; same("u8::from(Reg8)", u8::from(r), c)?;
        same("Reg8 text", (r.to_string(), <&str>::from(r)), (n.to_string(), n))?;
        for (p, h, l) in [(None, "H", "L"), (Some(Prefix::Xdd), "IXH", "IXL"), (Some(Prefix::Yfd), "IYH", "IYL")] {
            same("Reg8::format_with_prefix", Fmt8(r, p).to_string(), match r { Reg8::H => h, Reg8::L => l, _ => n }.to_string())?;
        }
    }
    // StkReg16, Reg16
    let s = STK.iter().find(|r| r.1 == code & 0x30).unwrap().0;
    same("StkReg16::from_code", StkReg16::from_code(code), s)?; same("StkReg16::from", StkReg16::from(code), s)?;
    for (r, c, n) in STK { same("StkReg16 code", (r.to_code(), u8::from(r)), (c, c))?; same("StkReg16 text", (r.to_string(), <&str>::from(r)), (n.to_string(), n))?; }
    let s = R16.iter().find(|r| r.1 == code & 0x30).unwrap().0;
    same("Reg16::from_code", Reg16::from_code(code), s)?; same("Reg16::from", Reg16::from(code), s)?;
    for (r, c, n) in R16 {
        same("Reg16 code", (r.to_code(), u8::from(r)), (c, c))?; same("Reg16 text", (r.to_string(), <&str>::from(r)), (n.to_string(), n))?;
        for (p, h) in [(None, "HL"), (Some(Prefix::Xdd), "IX"), (Some(Prefix::Yfd), "IY")] { same("Reg16::format_with_prefix", Fmt16(r, p).to_string(), if r == Reg16::HL { h } else { n }.to_string())?; }
    }
    // Condition
    let s = CC.iter().find(|r| r.1 == code & 0x38).unwrap().0;
    same("Condition::from_code", Condition::from_code(code), s)?; same("Condition::from", Condition::from(code), s)?;
    let j = CC.iter().find(|r| r.1 == code & 0x18).unwrap().0;
    same("Condition::from_jr_subset", Condition::from_jr_subset(code), j)?;
    for (r, c, n, bit, on) in CC {
        same("Condition code", (r.to_code(), u8::from(r)), (c, c))?;
        same("Condition text", (r.to_string(), <&str>::from(r)), (n.to_string(), n))?;
        same("Condition::from_str", n.parse::<Condition>(), Ok(r))?;
        same(&format!("{}.is_satisfied({:02x})", n, code), r.is_satisfied(CpuFlags::from_bits_retain(code)), (code & bit != 0) == on)?;
    }
    // Prefix
    same("Prefix::try_from", Prefix::try_from(code), match code { 0xDD => Ok(Prefix::Xdd), 0xFD => Ok(Prefix::Yfd), _ => Err(()) })?;
    for (p, c, n) in [(Prefix::Xdd, 0xDD, "IX"), (Prefix::Yfd, 0xFD, "IY")] {
        same("Prefix code", (p.to_code(), u8::from(p)), (c, c))?; same("Prefix text", p.to_string(), n.to_string())?;
        same("Prefix JSON", serde_json::from_str::<Prefix>(&serde_json::to_string(&p).unwrap()).ok(), Some(p))?;
        same("Prefix bincode", bincode::deserialize::<Prefix>(&bincode::serialize(&p).unwrap()).ok(), Some(p))?;
    }
    // InterruptMode
    same("InterruptMode::try_from", InterruptMode::try_from(code), match code { 0 => Ok(InterruptMode::Mode0), 1 => Ok(InterruptMode::Mode1), 2 => Ok(InterruptMode::Mode2), _ => Err(()) })?;
    same("InterruptMode::default", InterruptMode::default(), InterruptMode::Mode0)?;
    for n in 0..3 {
        let m = im_of(n);
        same("InterruptMode number", (m.to_mode_number(), u8::from(m)), (n, n))?;
        same("InterruptMode JSON", serde_json::from_str::<InterruptMode>(&serde_json::to_string(&m).unwrap()).ok(), Some(m))?;
        same("InterruptMode bincode", bincode::deserialize::<InterruptMode>(&bincode::serialize(&m).unwrap()).ok(), Some(m))?;
    }
    // CpuFlags
    let b = |f: CpuFlags| f.bits();
    same("flag bits", [b(CpuFlags::C), b(CpuFlags::N), b(CpuFlags::PV), b(CpuFlags::X), b(CpuFlags::H), b(CpuFlags::Y), b(CpuFlags::Z), b(CpuFlags::S), b(CpuFlags::P), b(CpuFlags::V), b(CpuFlags::XY), b(CpuFlags::HMASK)],
        [1, 2, 4, 8, 16, 32, 64, 128, 4, 4, 0x28, 0x0F])?;
    let f = CpuFlags::from_bits_retain(code);
    same("flag getters", [f.cf(), f.nf(), f.pvf(), f.hf(), f.zf(), f.sf()], [code & 1 != 0, code & 2 != 0, code & 4 != 0, code & 16 != 0, code & 64 != 0, code & 128 != 0])?;
    let mut g = f; g.reset();
    same("CpuFlags::reset", b(g), 0)?; same("CpuFlags::default", b(CpuFlags::default()), 0)?;
    for n in 0..8u8 {
        let (x, y, z) = (n & 1 != 0, n & 2 != 0, n & 4 != 0);
        same("mask_cvz", b(CpuFlags::mask_cvz(x, y, z)), x as u8 | (y as u8) << 2 | (z as u8) << 6)?;
        same("masks of one flag", [b(CpuFlags::mask_carry(x)), b(CpuFlags::mask_nf(x)), b(CpuFlags::mask_hf(x)), b(CpuFlags::mask_hcf(x)), b(CpuFlags::mask_pvf(x))], [x as u8, (x as u8) << 1, (x as u8) << 4, (x as u8) * 0x11, (x as u8) << 2])?;
    }
    let par = (0..8).filter(|i| code >> i & 1 != 0).count() % 2 == 0;
    same("masks of a result", [b(CpuFlags::mask_sign(code)), b(CpuFlags::mask_zero(code)), b(CpuFlags::parity(code)), b(CpuFlags::mask_xy(code)), b(CpuFlags::mask_sxy(code))],
        [code & 0x80, if code == 0 { 0x40 } else { 0 }, if par { 4 } else { 0 }, code & 0x28, code & 0xA8])?;
    // constants
    same("NMI_RESTART", NMI_RESTART, 0x66)?;
    same("cycles", [cycles::M1_CYCLE_TS, cycles::MEMRW_CYCLE_TS, cycles::IO_IORQ_LOW_TS, cycles::IO_CYCLE_TS, cycles::INT_IORQ_LOW_TS, cycles::IRQ_ACK_CYCLE_TS], [4, 3, 1, 4, 2, 6])?;
    Ok(())
}

/// names which are not names of conditions
fn c21_names(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let n = case.ops.len().min(6);
    let s: String = case.ops[..n].iter().map(|w| match w & 3 { 0 => (w >> 8) as u8 as char, 1 => char::from_u32((w >> 8) as u32 & 0x1FFFF).unwrap_or('N'), _ => ['N', 'Z', 'C', 'P', 'O', 'E', 'M', ' ', 'S', '_'][(w >> 8) as usize % 10] }).collect();
    ctx.describe(|| format!("{:?}", s));
    ctx.nontrivial = true;
    let got: Result<Condition, ()> = s.parse();
    let exact = CC.iter().find(|c| c.2 == s).map(|c| c.0);
    // another letter case or surrounding blanks are not judged
    let loose = CC.iter().any(|c| c.2.eq_ignore_ascii_case(s.trim()));
    match (exact, got) {
        (Some(c), g) if g != Ok(c) => Err(format!("{:?} parses as {:?}", s, g)),
        (None, Ok(c)) if !loose => Err(format!("{:?} parses as {:?}", s, c)),
        _ => Ok(()),
    }
}

/// What the CPU does with an opcode in one state, against the enums and constants.
fn c21_exec_on<C: CpuX>(op: u8, ed: bool, st: &State, fl: Fl, ctx: &mut Ctx) -> Result<(), String> {
    let Ctx { h1, c1, h2, .. } = &mut *ctx;
    let cfg = HostCfg { mem_seed: mix(st.hl as u64, st.bc as u64), io_seed: 5, ..Default::default() };
    h1.reset(cfg, true); h2.reset(cfg, false); c1.reset(0, Cont::default(), false);
    let pc = st.pc;
    if ed { h1.poke(pc, ED_PREFIX); h1.poke(pc.wrapping_add(1), op); } else { h1.poke(pc, op); }
    for i in 0..4 { let a = pc.wrapping_add(i); h2.poke(a, h1.peek(a)); }
    let mem = |a: u16| h2.peek(a);
    let word = |a: u16| mem(a) as u16 | (mem(a.wrapping_add(1)) as u16) << 8;
    let imm = word(pc.wrapping_add(1));
    let rel = pc.wrapping_add(2).wrapping_add(mem(pc.wrapping_add(1)) as i8 as u16);
    let pop = word(st.sp);
    let flags = CpuFlags::from_bits_retain(st.af as u8);
    let mut c: C = make(fl, st, false);
    let mut dbg = None;
    let r = out_of(c.execute_next(h1, c1, Some(|d: CpuDebug| dbg = Some(d))));
    let s = read_state(&c);
    let at = |m: &str| format!("opcode {}{:02x} is {}, but from {:x?} the CPU reached {:x?} ({:?}, reported as {:?} {})", if ed { "ED " } else { "" }, op, m, st, s, r, dbg.as_ref().map(|d| d.mnemonic),
        dbg.as_ref().map_or(String::new(), |d| d.args.to_string()));
    let mn = dbg.as_ref().map_or("", |d| d.mnemonic);
    let args = dbg.as_ref().map_or(String::new(), |d| d.args.to_string());
    let has_cc = args.split(',').next().map_or(false, |a| CC.iter().any(|c| c.2 == a.trim()));
    let writes: Vec<(u16, u8)> = h1.ev.borrow().iter().filter(|e| e.k == BK::Wr).map(|e| (e.addr, e.val as u8)).collect();
    // (the instruction pushed the return address, the stack pointer fell by two)
    let pushed = |ret: u16| { let (p1, p2) = (st.sp.wrapping_sub(1), st.sp.wrapping_sub(2)); s.sp == p2 && writes == [(p1, (ret >> 8) as u8), (p2, ret as u8)] };
    let flow_only = State { pc: st.pc, sp: st.sp, r: st.r, wz: st.wz, ..s } == *st;
    macro_rules! need { ($c:expr, $m:expr) => { if !($c) { return Err(at($m)); } } }
    // the constant must name exactly the opcodes executed as that instruction
    macro_rules! exactly { ($is:expr, $named:expr, $m:expr) => { if ($is) != ($named) { return Err(at(&format!("{} {}", if ($is) { "" } else { "not" }, $m))); } } }
    if ed {
        let retn = op & RETN_OP2_MASK == RETN_OP2_BASE;
        exactly!(retn, mn == "RETN" || mn == "RETI", "RETN/RETI by RETN_OP2_BASE/RETN_OP2_MASK");
        let reti_calls = h1.retis;
        if retn {
            need!(s.pc == pop && s.sp == st.sp.wrapping_add(2) && State { iff1: st.iff1, ..s }.iff2 == st.iff2 && s.iff1 == st.iff2, "RETN/RETI by RETN_OP2_BASE/RETN_OP2_MASK");
        }
        if (ED_PREFIX, op) == RETI_OPCODE_T2 { need!(mn == "RETI" && reti_calls == 1, "RETI_OPCODE_T2"); }
        if (ED_PREFIX, op) == RETN_OPCODE_T2 { need!(mn == "RETN" && reti_calls == 0, "RETN_OPCODE_T2"); }
        if !retn { need!(reti_calls == 0, "neither RETN nor RETI"); }
        if let Some(n) = [(0x46, 0), (0x56, 1), (0x5E, 2)].iter().find(|x| x.0 == op).map(|x| x.1) { need!(c.get_im() == InterruptMode::try_from(n).unwrap(), "IM"); }
        return Ok(());
    }
    let next = |n: u16| s.pc == pc.wrapping_add(n);
    exactly!(op == NOP_OPCODE, mn == "NOP", "NOP_OPCODE");
    if op == NOP_OPCODE { need!(next(1) && flow_only && s.sp == st.sp && writes.is_empty(), "NOP_OPCODE"); }
    exactly!(op == HALT_OPCODE, mn == "HALT", "HALT_OPCODE");
    exactly!(op == HALT_OPCODE, r == Out::Halt, "HALT_OPCODE");
    exactly!(op == HALT_OPCODE, s.halt, "HALT_OPCODE");
    exactly!(op == DI_OPCODE, mn == "DI", "DI_OPCODE");
    if op == DI_OPCODE { need!(next(1) && !s.iff1 && !s.iff2, "DI_OPCODE"); }
    exactly!(op == EI_OPCODE, mn == "EI", "EI_OPCODE");
    exactly!(op == EI_OPCODE, s.ei, "EI_OPCODE");
    if op == EI_OPCODE { need!(next(1) && s.iff1 && s.iff2, "EI_OPCODE"); }
    // prefixes
    let px = c.get_prefix();
    same(&format!("prefix after opcode {:02x}", op), px, Prefix::try_from(op).ok())?;
    exactly!(op == DD_PREFIX, px == Some(Prefix::Xdd), "DD_PREFIX");
    exactly!(op == FD_PREFIX, px == Some(Prefix::Yfd), "FD_PREFIX");
    // conditional and unconditional flow
    let cc = Condition::from_code(op);
    let sat = cc.is_satisfied(flags);
    let ccname = |c: Condition| args.split(',').next() == Some(&c.to_string()[..]);
    exactly!(op == RET_OPCODE, mn == "RET" && !has_cc, "RET_OPCODE");
    let is_ret = op & RET_CC_OPMASK == RET_CC_OPBASE;
    exactly!(is_ret, mn == "RET" && has_cc, "RET cc");
    if op == RET_OPCODE || is_ret {
        if is_ret { need!(op == RET_CC_OPBASE | cc.to_code() && ccname(cc), "RET cc"); }
        let go = op == RET_OPCODE || sat;
        need!(flow_only && writes.is_empty() && if go { s.pc == pop && s.sp == st.sp.wrapping_add(2) } else { next(1) && s.sp == st.sp }, "RET");
    }
    exactly!(op == CALL_OPCODE, mn == "CALL" && !has_cc, "CALL_OPCODE");
    let is_call = op & CALL_CC_OPMASK == CALL_CC_OPBASE;
    exactly!(is_call, mn == "CALL" && has_cc, "CALL cc");
    if op == CALL_OPCODE || is_call {
        if is_call { need!(op == CALL_CC_OPBASE | cc.to_code() && ccname(cc), "CALL cc"); }
        let go = op == CALL_OPCODE || sat;
        need!(flow_only && if go { s.pc == imm && pushed(pc.wrapping_add(3)) } else { next(3) && s.sp == st.sp && writes.is_empty() }, "CALL");
    }
    exactly!(op == JP_OPCODE, mn == "JP" && !has_cc && op != 0xE9, "JP_OPCODE");
    let is_jp = op & JP_CC_OPMASK == JP_CC_OPBASE;
    exactly!(is_jp, mn == "JP" && has_cc, "JP cc");
    if op == JP_OPCODE || is_jp {
        if is_jp { need!(op == JP_CC_OPBASE | cc.to_code() && ccname(cc), "JP cc"); }
        need!(flow_only && s.sp == st.sp && writes.is_empty() && if op == JP_OPCODE || sat { s.pc == imm } else { next(3) }, "JP");
    }
    exactly!(op == JR_OPCODE, mn == "JR" && !has_cc, "JR_OPCODE");
    let is_jr = op & JR_CC_OPMASK == JR_CC_OPBASE;
    exactly!(is_jr, mn == "JR" && has_cc, "JR cc");
    if op == JR_OPCODE || is_jr {
        let jc = Condition::from_jr_subset(op);
        if is_jr { need!(op == JR_CC_OPBASE | jc.to_code() && ccname(jc), "JR cc"); }
        need!(flow_only && s.sp == st.sp && writes.is_empty() && if op == JR_OPCODE || jc.is_satisfied(flags) { s.pc == rel } else { next(2) }, "JR");
    }
    exactly!(op == DJNZ_OPCODE, mn == "DJNZ", "DJNZ_OPCODE");
    if op == DJNZ_OPCODE {
        let b = (st.bc >> 8) as u8;
        need!(c.get_reg(Reg8::B, None) == b.wrapping_sub(1) && if b == 1 { next(2) } else { s.pc == rel }, "DJNZ_OPCODE");
    }
    let is_rst = op & RST_OPMASK == RST_OPBASE;
    exactly!(is_rst, mn == "RST", "RST");
    if is_rst {
        let a = op ^ RST_OPBASE;
        need!(op == RST_OPBASE | a && flow_only && s.pc == a as u16 && pushed(pc.wrapping_add(1)), "RST");
        let named = [RST_00H_OPCODE, RST_08H_OPCODE, RST_10H_OPCODE, RST_18H_OPCODE, RST_20H_OPCODE, RST_28H_OPCODE, RST_30H_OPCODE, RST_38H_OPCODE];
        need!(named[(a >> 3) as usize] == op, "the RST constant of that address");
    }
    // operand codes are the ones the decoder uses
    if op & 0xC7 == 0x06 {
        let n = mem(pc.wrapping_add(1));
        if let Ok(r8) = Reg8::try_from(op >> 3) { need!(c.get_reg(r8, None) == n && args.starts_with(<&str>::from(r8)) && next(2), "LD r,n"); }
        else { need!(writes == [(st.hl, n)], "LD (HL),n"); }
    }
    if op & 0xC0 == 0x40 && op != 0x76 {
        if let (Ok(d), Ok(v)) = (Reg8::try_from(op >> 3), Reg8::try_from(op)) {
            let old: C = make(fl, st, false);
            need!(c.get_reg(d, None) == old.get_reg(v, None) && args == format!("{}, {}", d, v), "LD r,r");
        }
    }
    if op & 0xCF == 0x01 {
        let r16 = Reg16::from_code(op);
        let v = match r16 { Reg16::BC => s.bc, Reg16::DE => s.de, Reg16::HL => s.hl, Reg16::SP => s.sp };
        need!(v == imm && args.starts_with(<&str>::from(r16)), "LD rp,nn");
    }
    if op & 0xCF == 0xC1 { let q = StkReg16::from_code(op); need!(c.get_reg16(q) == pop && args == q.to_string(), "POP rp"); }
    if op & 0xCF == 0xC5 { let q = StkReg16::from_code(op); let old: C = make(fl, st, false); let v = old.get_reg16(q); need!(pushed(v) && args == q.to_string(), "PUSH rp"); }
    Ok(())
}

fn c21_exec(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let w = case.h[0];
    let (op, f, ed) = (w as u8, (w >> 8) as u8, w >> 16 & 1 != 0);
    let fl = FLS[(w >> 17) as usize % 3];
    let ws: Vec<u64> = (0..Tape::STATE_W as u64).map(|i| mix(case.h[1], i)).collect();
    let mut st = Tape::new(&ws).state();
    st.af = st.af & 0xFF00 | f as u16;
    // the stack must not overlap the instruction: the pushed bytes are judged from the initial memory
    if st.sp.wrapping_sub(st.pc).wrapping_add(6) < 16 { st.sp = st.pc.wrapping_add(0x4321); }
    if st.iff1 == st.iff2 && w >> 20 & 1 == 0 { st.iff1 = !st.iff2; }
    ctx.describe(|| format!("{}{:02x} flavour {:?} {:x?}", if ed { "ED " } else { "" }, op, fl, st));
    ctx.nontrivial = true;
    with_flavour!(fl, c21_exec_on, (op, ed, &st, fl, ctx))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C19",
            parts: vec![
                Part { name: "calls", nh: 2, max_ops: 60, quick: 6_000_000, thorough: 200_000_000, run: c19, enumerate: None },
                Part { name: "programs", nh: 2 + HIST_W, max_ops: 24, quick: 1_500_000, thorough: 40_000_000, run: c19_prog, enumerate: None },
            ],
            rule: "calls: at least one call advances the counter; programs: at least two opcodes fetched",
            assumptions: &["counter types: every primitive integer satisfying the trait bounds (u16, u32, u64, u128, usize, i32, i64, i128)", "a limit at or beyond the wrap-around of the counter is not passed to execute_with_limit"],
        },
        Prop {
            id: "C20",
            parts: vec![
                Part { name: "direct calls", nh: 2, max_ops: 30, quick: 400_000, thorough: 40_000_000, run: c20_calls, enumerate: None },
                Part { name: "programs through wrappers", nh: HIST_W + 1, max_ops: 30, quick: 1_500_000, thorough: 40_000_000, run: c20_prog, enumerate: None },
                Part { name: "default methods", nh: HIST_W + 1, max_ops: 30, quick: 1_500_000, thorough: 40_000_000, run: c20_default, enumerate: None },
            ],
            rule: "direct calls: at least one call; programs: at least two opcodes fetched",
            assumptions: &[],
        },
        Prop {
            id: "C21",
            parts: vec![
                Part { name: "codes, names, flags", nh: 1, max_ops: 0, quick: 0, thorough: 0, run: c21_codes, enumerate: Some((|_| 256, |i| Case { h: vec![i], ops: vec![] })) },
                Part { name: "names of conditions", nh: 0, max_ops: 6, quick: 200_000, thorough: 10_000_000, run: c21_names, enumerate: None },
                Part { name: "every opcode and flags value executed", nh: 2, max_ops: 0, quick: 0, thorough: 0, run: c21_exec,
                    enumerate: Some((|t| 131072 * if t { 1500 } else { 16 }, |i| Case { h: vec![i & 0x1FFFF | (i >> 17) % 3 << 17 | i >> 18 << 20, mix(i, 99)], ops: vec![] })) },
            ],
            rule: "every case (a code byte, a name, an opcode executed from one state)",
            assumptions: &["text accepted by FromStr in another letter case or with blanks is not judged"],
        },
    ]
}
