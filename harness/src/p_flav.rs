//! C24 (equality, cloning and debug printing reflect the state) and C25 (flavours defined by the user).
use crate::hist::*;
use crate::host::*;
use crate::model::Model;
use crate::p_instr::NoDbg;
use crate::runner::*;
use crate::state::*;
use crate::tape::*;
use crate::with_flavour;
use z80emu::disasm::disasm_memory_once;
use z80emu::z80::{Flavour, BM1, CMOS, NMOS};
use z80emu::{Cpu, CpuFlags, Prefix, StkReg16, Z80Any, Z80};

// ---------------------------------------------------------------- C25
/// A flavour that remembers which of the last 32 instructions modified the flags.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
struct User<const OUT: u8, const EARLY: bool> { hist: u32, resets: u32 }
const RESET_HIST: u32 = 0xA5A5;
fn user_mix(out: u8, msb: u8, lsb: u8) -> (u8, u8) { (msb.wrapping_mul(5) ^ lsb ^ out, lsb.wrapping_sub(msb) ^ 0x3C) }
fn user_q(out: u8, acc: u8, flags: u8, before: u32) -> u8 { (mix3(acc as u64, flags as u64, ((before & 0xFFFF) << 8) as u64 | out as u64) >> 17) as u8 }

impl<const OUT: u8, const EARLY: bool> Flavour for User<OUT, EARLY> {
    const CONSTANT_OUT_DATA: u8 = OUT;
    const ACCEPTING_INT_RESETS_IFF2_EARLY: bool = EARLY;
    fn tag() -> &'static str { "USER" }
    fn memptr_mix(msb: u8, lsb: u8) -> (u8, u8) { user_mix(OUT, msb, lsb) }
    fn begin_instruction(&mut self) { self.hist <<= 1; }
    fn flags_modified(&mut self) { self.hist |= 1; }
    // bit 0 belongs to the running instruction
    fn get_q(&self, acc: u8, flags: CpuFlags) -> u8 { user_q(OUT, acc, flags.bits(), self.hist >> 1) }
    fn cpu_into_any(_: Z80<Self>) -> Z80Any { unimplemented!() }
    fn unwrap_cpu_any(_: Z80Any) -> Z80<Self> { unimplemented!() }
    fn reset(&mut self) { *self = User { hist: RESET_HIST, resets: self.resets + 1 }; }
}
impl<const OUT: u8, const EARLY: bool> From<NMOS> for User<OUT, EARLY> { fn from(_: NMOS) -> Self { User { hist: 0x77, resets: 9 } } }
/// What a flavour of the user's is converted into.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
struct Other(u32);
impl Flavour for Other {
    const CONSTANT_OUT_DATA: u8 = 1;
    const ACCEPTING_INT_RESETS_IFF2_EARLY: bool = false;
    fn tag() -> &'static str { "OTHER" }
    fn memptr_mix(msb: u8, lsb: u8) -> (u8, u8) { (msb, lsb) }
    fn begin_instruction(&mut self) {}
    fn flags_modified(&mut self) {}
    fn get_q(&self, _: u8, _: CpuFlags) -> u8 { 0 }
    fn cpu_into_any(_: Z80<Self>) -> Z80Any { unimplemented!() }
    fn unwrap_cpu_any(_: Z80Any) -> Z80<Self> { unimplemented!() }
}
impl<const OUT: u8, const EARLY: bool> From<User<OUT, EARLY>> for Other { fn from(u: User<OUT, EARLY>) -> Self { Other(u.hist ^ u.resets) } }

/// What the flavour decides about an instruction.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Special { None, Memptr(u8), OutC, LdAI, Q }

fn special(first: u8, operands: [u8; 2], st: &State) -> Special {
    match first {
        0x02 => Special::Memptr(st.bc as u8),
        0x12 => Special::Memptr(st.de as u8),
        0x32 | 0xD3 => Special::Memptr(operands[0]),
        0x37 | 0x3F => Special::Q,
        0xED => match operands[0] { 0x71 => Special::OutC, 0x57 | 0x5F => Special::LdAI, _ => Special::None },
        _ => Special::None,
    }
}

fn run_user<const OUT: u8, const EARLY: bool>(s: &Setup, ops: &[HOp], ctx: &mut Ctx) -> Result<u32, String> {
    let mut a: Z80<NMOS> = make(s.fl, &s.st, s.q);
    let mut b: Z80<User<OUT, EARLY>> = make(s.fl, &s.st, s.q);
    ctx.h1.reset(s.cfg, true); ctx.h2.reset(s.cfg, true); ctx.h3.reset(s.cfg, false);
    ctx.c1.reset(s.t0, s.cont, true); ctx.c2.reset(s.t0, s.cont, true); ctx.c3.reset(s.t0, s.cont, false);
    let mut specials = 0;
    for (n, op) in ops.iter().enumerate() {
        let (pre, pre_fl) = (read_state(&a), b.flavour);
        if !allowed(op, &pre) { continue; }
        clear_events(&mut ctx.h1, &mut ctx.c1); clear_events(&mut ctx.h2, &mut ctx.c2); clear_events(&mut ctx.h3, &mut ctx.c3);
        let pcx = pre.pc.wrapping_add(pre.halt as u16);
        let code: [u8; 3] = std::array::from_fn(|i| ctx.h1.peek(pre.pc.wrapping_add(i as u16)));
        let after_irq: [u8; 2] = std::array::from_fn(|i| ctx.h1.peek(pcx.wrapping_add(i as u16)));
        let acks = ctx.h1.acks;
        let mut m = Model::new(Fl::Nmos, &pre, false);
        m.hist = pre_fl.hist;
        let ra = apply(op, &mut a, &mut ctx.h1, &mut ctx.c1);
        let rb = apply(op, &mut b, &mut ctx.h2, &mut ctx.c2);
        apply_model(op, &mut m, &mut ctx.h3, &mut ctx.c3);
        let at = |what: String| Err(format!("op {} {:x?} from {:x?}: {}", n, op, pre, what));
        if let HOp::Place(code) = op {
            let (x, y) = (disasm_memory_once::<Z80<NMOS>>(pre.pc, code), disasm_memory_once::<Z80<User<OUT, EARLY>>>(pre.pc, code));
            if x != y { return at(format!("disassembly with NMOS {:?} with the user's flavour {:?}", x, y)); }
        }
        // the flavour's own hooks
        let want = if *op == HOp::Reset { User { hist: RESET_HIST, resets: pre_fl.resets + 1 } } else { User { hist: m.hist, resets: pre_fl.resets } };
        if b.flavour != want { return at(format!("flavour hooks: {:x?} became {:x?}, expected {:x?} (hist: a bit for each begun instruction, set if it modified the flags)", pre_fl, b.flavour, want)); }
        // everything else like NMOS, but for what the flavour decides
        let acked = ctx.h1.acks != acks;
        let sp = match op {
            _ if acked => match pre.im {
                0 => { let v = ctx.h1.ev.borrow().iter().find(|e| e.k == BK::IrqData).map_or(0, |e| e.val as u8); special(v, after_irq, &pre) }
                _ => Special::None,
            },
            HOp::Step | HOp::Run(_) if !pre.halt => special(code[0], [code[1], code[2]], &pre),
            HOp::Exec(c) => special(*c, [code[0], code[1]], &pre),
            _ => Special::None,
        };
        let mut want = read_state(&a);
        match sp {
            Special::Memptr(lsb) => { let (h, l) = user_mix(OUT, (pre.af >> 8) as u8, lsb); want.wz = (h as u16) << 8 | l as u16; }
            Special::Q => want.af = want.af & !0x28 | (user_q(OUT, (pre.af >> 8) as u8, pre.af as u8, pre_fl.hist) & 0x28) as u16,
            Special::LdAI if !EARLY => want.af = want.af & !4 | ((pre.iff2 && !acked) as u16) << 2,
            Special::OutC => for e in ctx.h1.ev.borrow_mut().iter_mut() { if e.k == BK::Out { e.val = OUT as u16 } },
            _ => {}
        }
        specials += (sp != Special::None) as u32;
        let got = read_state(&b);
        if ra != rb { return at(format!("result NMOS {:?} user's flavour {:?}", ra, rb)); }
        if got != want { return at(format!("{:?} got!=expected{}", sp, got.diff(&want))); }
        if ctx.c1.ev != ctx.c2.ev || ctx.c1.t != ctx.c2.t { return at(format!("machine cycles NMOS {:x?} user's flavour {:x?}", ctx.c1.ev, ctx.c2.ev)); }
        if *ctx.h1.ev.borrow() != *ctx.h2.ev.borrow() { return at(format!("{:?} bus accesses expected {:x?} got {:x?}", sp, ctx.h1.ev.borrow(), ctx.h2.ev.borrow())); }
        // go on from the same state
        b.set_memptr(a.get_memptr());
        b.set_flags(a.get_flags());
    }
    // conversions keep the state and convert the flavour through From
    let (x, y) = (a.clone().into_flavour::<User<OUT, EARLY>>(), Z80::<Other>::from_flavour(b.clone()));
    if read_state(&x) != read_state(&a) || x.flavour != (User { hist: 0x77, resets: 9 }) { return Err(format!("NMOS into the user's flavour: {} {:?}", read_state(&a).diff(&read_state(&x)), x.flavour)); }
    if read_state(&y) != read_state(&b) || y.flavour != Other(b.flavour.hist ^ b.flavour.resets) { return Err(format!("user's flavour into another: {} {:?}", read_state(&b).diff(&read_state(&y)), y.flavour)); }
    Ok(specials)
}

fn c25(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let s = setup(&mut t);
    const MIX: Mix = [10, 2, 2, 2, 1, 8, 1];
    const SP: &[&[u8]] = &[&[0x02], &[0x12], &[0x32], &[0xD3], &[0x37], &[0x3F], &[0xED, 0x71], &[0xED, 0x57], &[0xED, 0x5F], &[0xB7], &[0x08], &[0xF1], &[0xDD, 0x37], &[0xDD, 0x32], &[0xFD, 0xED, 0x71], &[0xCB, 0x11], &[0xED, 0xA1], &[0xED, 0xA3], &[0x27], &[0x09]];
    let ops: Vec<HOp> = case.ops.iter().map(|w| match hop(*w, &MIX) {
        HOp::Run(_) => HOp::Run(1),
        HOp::Place(_) if w >> 50 & 3 == 0 => HOp::Place([SP[(w >> 52) as usize % SP.len()], &[b8(w >> 20), b8(w >> 30)]].concat()),
        o => o,
    }).collect();
    let which = t.below(4);
    ctx.describe(|| format!("flavour {} {:x?} ops {:x?}", which, s, ops));
    let r = match which { 0 => run_user::<0x5A, false>(&s, &ops, ctx), 1 => run_user::<0x00, true>(&s, &ops, ctx), 2 => run_user::<0xFF, false>(&s, &ops, ctx), _ => run_user::<0x81, true>(&s, &ops, ctx) }?;
    ctx.nontrivial = r > 0;
    let acks = ctx.h1.acks;
    ctx.class_if(acks > 0, "interrupt acknowledged");
    ctx.class_if(ops.contains(&HOp::Nmi), "NMI requested");
    ctx.class_if(ops.contains(&HOp::Reset), "reset");
    Ok(())
}

// ---------------------------------------------------------------- C24
/// The wrapping Z80Any and the name of the flavour.
trait Wrapped: CpuX + Clone + std::fmt::Debug { fn any(&self) -> Z80Any; const HAS_Q: bool; }
impl Wrapped for Z80<NMOS> { fn any(&self) -> Z80Any { Z80Any::NMOS(self.clone()) } const HAS_Q: bool = true; }
impl Wrapped for Z80<CMOS> { fn any(&self) -> Z80Any { Z80Any::CMOS(self.clone()) } const HAS_Q: bool = false; }
impl Wrapped for Z80<BM1> { fn any(&self) -> Z80Any { Z80Any::BM1(self.clone()) } const HAS_Q: bool = true; }

/// Changes one thing through the public API. Returns false if hidden state may have changed as well.
fn mutate<C: CpuX>(c: &mut C, w: u64, st: &State) {
    let v = w >> 8;
    // a flip of one bit, or any value
    let x16 = |old: u16| if v & 1 == 0 { old ^ 1 << (v >> 1 & 15) } else { b16(v >> 1) };
    let x8 = |old: u8| if v & 1 == 0 { old ^ 1 << (v >> 1 & 7) } else { b8(v >> 1) };
    let pick = [StkReg16::BC, StkReg16::DE, StkReg16::HL, StkReg16::AF];
    match w % 21 {
        n @ 0..=3 => { let r = pick[n as usize]; let old = c.get_reg16(r); c.set_reg16(r, x16(old)); }
        n @ 4..=7 => {
            let r = pick[n as usize - 4];
            c.ex_af_af(); c.exx();
            let old = c.get_reg16(r);
            c.set_reg16(r, x16(old));
            c.ex_af_af(); c.exx();
        }
        8 => c.set_index16(Prefix::Xdd, x16(st.ix)),
        9 => c.set_index16(Prefix::Yfd, x16(st.iy)),
        10 => c.set_pc(x16(st.pc)),
        11 => c.set_sp(x16(st.sp)),
        12 => c.put_memptr(x16(st.wz)),
        13 => c.set_i(x8(st.i)),
        14 => c.set_r(x8(st.r)),
        15 => c.add_r((v >> 1) as i32 >> (v & 31)),
        16 => c.set_im(im_of((v % 3) as u8)),
        17 => c.set_iffs(v & 1 != 0, v & 2 != 0),
        18 => if !st.halt && st.pfx == 0 { c.enable_interrupts(); c.set_iffs(st.iff1, st.iff2); },
        19 => if !st.ei && st.pfx == 0 { c.halt() },
        // the same value of R by another way
        _ => { let r = c.get_r(); c.set_r(r ^ 0x55); for _ in 0..(v & 3) { c.inc_r(); } c.set_r(r); c.inc_r(); c.add_r(-1); }
    }
}

fn both<T: PartialEq>(a: &T, b: &T, equal: bool) -> Result<(), String> {
    if (a == b) != equal || (b == a) != equal || (a != b) == equal || (b != a) == equal { return Err(format!("== {} / {}, != {} / {}, but the states are {}", a == b, b == a, a != b, b != a, if equal { "equal" } else { "different" })); }
    Ok(())
}

/// The value after `name: ` in the output of {:?} or {:#?}.
fn field<'a>(s: &'a str, name: &str) -> Option<&'a str> {
    let key = format!("{}: ", name);
    let mut from = 0;
    loop {
        let i = s[from..].find(&key)? + from;
        if i == 0 || matches!(s.as_bytes()[i - 1], b' ' | b'\n' | b'\t') {
            let rest = &s[i + key.len()..];
            let end = rest.find(|c: char| matches!(c, ',' | '}' | '\n')).unwrap_or(rest.len());
            return Some(rest[..end].trim());
        }
        from = i + 1;
    }
}

fn check_debug(out: &str, st: &State) -> Result<(), String> {
    let num = |name: &str| -> Result<u64, String> { field(out, name).and_then(|v| v.parse().ok()).ok_or_else(|| format!("no number {} in {}", name, out)) };
    for (name, v) in [("pc", st.pc), ("sp", st.sp), ("af", st.af), ("bc", st.bc), ("de", st.de), ("hl", st.hl), ("af'", st.af2), ("bc'", st.bc2), ("de'", st.de2), ("hl'", st.hl2), ("ix", st.ix), ("iy", st.iy), ("mp", st.wz)] {
        if num(name)? != v as u64 { return Err(format!("{} should be {} in {}", name, v, out)); }
    }
    // bit 7 of R is kept with I, the other bits in a counter
    let (ir, r) = (num("ir")?, num("r")?);
    if ir >> 8 != st.i as u64 || (ir & 0x80 | r & 0x7F) != st.r as u64 { return Err(format!("I,R should be {},{} in {}", st.i, st.r, out)); }
    for (name, v) in [("iff1", st.iff1), ("iff2", st.iff2), ("halt", st.halt), ("ei", st.ei)] {
        if field(out, name) != Some(if v { "true" } else { "false" }) { return Err(format!("{} should be {} in {}", name, v, out)); }
    }
    if field(out, "im") != Some(&format!("{:?}", im_of(st.im))) { return Err(format!("im should be {} in {}", st.im, out)); }
    Ok(())
}

fn run_c24<C: Wrapped>(s: &Setup, ops: &[HOp], muts: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut c: C = make(s.fl, &s.st, s.q);
    ctx.h1.reset(s.cfg, false); ctx.c1.reset(s.t0, s.cont, false);
    for op in ops {
        if !allowed(op, &read_state(&c)) { continue; }
        apply(op, &mut c, &mut ctx.h1, &mut ctx.c1);
    }
    let st = read_state(&c);
    let at = |what: &str, e: String| format!("{} of {:x?}: {}", what, st, e);
    // printing
    for out in [format!("{:?}", c), format!("{:#?}", c), format!("{:?}", c.any()), format!("{:#?}", c.any())] {
        check_debug(&out, &st).map_err(|e| at("debug output", e))?;
        let pfx = out.split("prefix: ").nth(1).ok_or_else(|| format!("no prefix in {}", out))?;
        if !match st.pfx { 0 => pfx.starts_with("None"), 0xDD => pfx.starts_with("Some(") && pfx.contains("Xdd"), _ => pfx.starts_with("Some(") && pfx.contains("Yfd") } { return Err(at("debug output", format!("prefix should be {:x} in {}", st.pfx, out))); }
    }
    // a clone is equal and independent
    let (mut twin, keep) = (c.clone(), c.clone());
    both(&c, &twin, true).map_err(|e| at("clone", e))?;
    both(&c.any(), &twin.any(), true).map_err(|e| at("clone of Z80Any", e))?;
    if read_state(&twin) != st { return Err(at("clone", st.diff(&read_state(&twin)))); }
    for i in 0..3 {
        let w = mix(muts, i);
        let now = read_state(&twin);
        mutate(&mut twin, w, &now);
        let t2 = read_state(&twin);
        // different in any observable: unequal; the same in all: equal once R is normalized
        let mut n = [c.clone(), twin.clone()];
        let mut any = [c.any(), twin.any()];
        if t2 != st {
            both(&n[0], &n[1], false).map_err(|e| at("change", format!("{} {}", e, st.diff(&t2))))?;
            both(&any[0], &any[1], false).map_err(|e| at("change in Z80Any", format!("{} {}", e, st.diff(&t2))))?;
        }
        for x in &mut n { x.norm_r(); }
        for x in &mut any { x.norm_r(); }
        both(&n[0], &n[1], t2 == st).map_err(|e| at("change and normalize_r", format!("{} {}", e, st.diff(&t2))))?;
        both(&any[0], &any[1], t2 == st).map_err(|e| at("change and normalize_r in Z80Any", format!("{} {}", e, st.diff(&t2))))?;
        for x in &any { if x.get_r() != if *x == any[0] { st.r } else { t2.r } { return Err(at("normalize_r", "changed R".into())); } }
    }
    twin.execute_next::<_, _, NoDbg>(&mut ctx.h1, &mut ctx.c1, None).ok();
    if read_state(&c) != st || c != keep { return Err(at("clone", "using the clone changed the original".into())); }
    // the flavour's memory is part of the state
    let (p, q): (C, C) = (make(s.fl, &s.st, true), make(s.fl, &s.st, false));
    if s.st.pfx == 0 { both(&p, &q, !C::HAS_Q).map_err(|e| at("flag history", e))?; both(&p.any(), &q.any(), !C::HAS_Q).map_err(|e| at("flag history in Z80Any", e))?; }
    // a pending prefix, and which one
    if !s.st.halt && !s.st.ei {
        let cpus: [C; 3] = [0, 0xDD, 0xFD].map(|pfx| make(s.fl, &State { pfx, ..s.st }, s.q));
        for i in 0..3 {
            for j in 0..3 {
                let same = read_state(&cpus[i]) == read_state(&cpus[j]);
                if same && i != j { continue; }
                both(&cpus[i], &cpus[j], same).map_err(|e| at("prefix", e))?;
                both(&cpus[i].any(), &cpus[j].any(), same).map_err(|e| at("prefix in Z80Any", e))?;
            }
        }
    }
    // Z80Any of different flavours
    for other in [Z80Any::NMOS(make(Fl::Nmos, &st, s.q)), Z80Any::CMOS(make(Fl::Cmos, &st, s.q)), Z80Any::BM1(make(Fl::Bm1, &st, s.q))] {
        if other.tag() != c.any().tag() { both(&other, &c.any(), false).map_err(|e| at("another flavour", e))?; }
    }
    Ok(())
}

fn c24(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let s = setup(&mut t);
    let muts = t.w();
    let ops: Vec<HOp> = case.ops.iter().map(|w| match hop(*w, &MIX_ALL) { HOp::Run(d) => HOp::Run(d % 40), o => o }).collect();
    ctx.describe(|| format!("{:x?} ops {:x?} mutations {:x}", s, ops, muts));
    let t = &mut *ctx;
    let r = with_flavour!(s.fl, run_c24, (&s, &ops, muts, t));
    ctx.nontrivial = true;
    ctx.class_if(s.st.pfx != 0, "starts after a prefix");
    ctx.class_if(s.st.halt, "starts halted");
    ctx.class_if(s.st.ei, "starts after EI");
    r
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C24",
            parts: vec![Part { name: "pairs", nh: HIST_W + 1, max_ops: 8, quick: 900_000, thorough: 12_000_000, run: c24, enumerate: None }],
            rule: "a case is a CPU (initial state and up to 8 operations) compared with its clone, with three mutations of the clone, with itself under another flavour, and printed; all cases are non-trivial; distinct by generated words",
            assumptions: &["the debug output keeps its field names (pc, sp, af, ..., mp, prefix) and prints numbers in decimal"],
        },
        Prop {
            id: "C25",
            parts: vec![Part { name: "user-flavours", nh: HIST_W + 1, max_ops: 24, quick: 3_000_000, thorough: 60_000_000, run: c25, enumerate: None }],
            rule: "a case is one of four flavours defined in the harness with a history of up to 24 operations, next to the NMOS CPU with the same history; non-trivial: at least one instruction whose result the flavour decides; distinct by generated words",
            assumptions: &["an instruction's hooks are called once, also for a prefix byte, as the built-in flavours' SCF/CCF behaviour requires"],
        },
    ]
}
