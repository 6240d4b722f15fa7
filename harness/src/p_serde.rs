//! C13 (round trip) and C14 (accepted and rejected representations).
use crate::hist::*;
use crate::host::*;
use crate::model::Out;
use crate::runner::*;
use crate::state::*;
use crate::tape::*;
use crate::with_flavour;
use bincode::Options;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value;
use z80emu::z80::{BM1, CMOS, NMOS};
use z80emu::host::TsCounter;
use z80emu::{InterruptMode, Prefix, RegisterPair, Z80Any, Z80};

trait Ser: CpuX + Clone + Serialize + DeserializeOwned + std::fmt::Debug {}
impl<T: CpuX + Clone + Serialize + DeserializeOwned + std::fmt::Debug> Ser for T {}

const FORMS: u64 = 12;
/// Encodes in one format and decodes again, possibly as another type.
fn through<A: Serialize, B: DeserializeOwned>(a: &A, form: u64) -> Result<B, String> {
    let e = |m: String| format!("form {}: {}", form % FORMS, m);
    match form % FORMS {
        0 => { let s = serde_json::to_string(a).map_err(|x| e(x.to_string()))?; serde_json::from_str(&s).map_err(|x| e(format!("{} in {}", x, s))) }
        1 => { let s = serde_json::to_string_pretty(a).map_err(|x| e(x.to_string()))?; serde_json::from_slice(s.as_bytes()).map_err(|x| e(format!("{} in {}", x, s))) }
        2 => { let s = serde_json::to_vec(a).map_err(|x| e(x.to_string()))?; serde_json::from_reader(&s[..]).map_err(|x| e(x.to_string())) }
        3 => { let s = serde_json::to_value(a).map_err(|x| e(x.to_string()))?; serde_json::from_value(s).map_err(|x| e(x.to_string())) }
        4 => { let s = bincode::serialize(a).map_err(|x| e(x.to_string()))?; bincode::deserialize(&s).map_err(|x| e(format!("{} in {:02x?}", x, s))) }
        5 => { let s = bincode::serialize(a).map_err(|x| e(x.to_string()))?; bincode::deserialize_from(&s[..]).map_err(|x| e(format!("{} in {:02x?}", x, s))) }
        7 => { let s = toml::to_string(a).map_err(|x| e(x.to_string()))?; toml::from_str(&s).map_err(|x| e(format!("{} in {}", x, s))) }
        8 => { let s = toml::Value::try_from(a).map_err(|x| e(x.to_string()))?; s.try_into().map_err(|x| e(x.to_string())) }
        9 => { let mut s = Vec::new(); ciborium::into_writer(a, &mut s).map_err(|x| e(x.to_string()))?; ciborium::from_reader(&s[..]).map_err(|x| e(format!("{} in {:02x?}", x, s))) }
        10 => { let s = ciborium::Value::serialized(a).map_err(|x| e(x.to_string()))?; s.deserialized().map_err(|x| e(x.to_string())) }
        _ => {
            let o = || bincode::options().with_big_endian().with_varint_encoding();
            let s = o().serialize(a).map_err(|x| e(x.to_string()))?;
            o().deserialize(&s).map_err(|x| e(format!("{} in {:02x?}", x, s)))
        }
    }
}

fn run_c13<C: Ser>(s: &Setup, ops: &[(HOp, u64)], save_at: usize, form: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut a: C = make(s.fl, &s.st, s.q);
    let Ctx { h1, c1, h2, c2, .. } = ctx;
    h1.reset(s.cfg, false); c1.reset(s.t0, s.cont, false);
    h1.budget = BUDGET; c1.budget = BUDGET;
    let mut copy: Option<C> = None;
    let mut saved = State::default();
    for n in 0..=ops.len() {
        if n == save_at.min(ops.len()) {
            // the other host starts as the first one was at the beginning and repeats the history up to here
            let b: C = through(&a, form)?;
            if b != a { return Err(format!("after {} ops: copy {:?} != original {:?}", n, b, a)); }
            saved = read_state(&a);
            if read_state(&b) != saved { return Err(format!("after {} ops: copy reads{}", n, saved.diff(&read_state(&b)))); }
            // other formats agree
            let b2: C = through(&a, form / FORMS)?;
            if b2 != a { return Err(format!("after {} ops: second copy {:?} != original {:?}", n, b2, a)); }
            // the exact same host for the copy
            h2.reset(s.cfg, false); c2.reset(s.t0, s.cont, false);
            h2.budget = BUDGET; c2.budget = BUDGET;
            let mut again: C = make(s.fl, &s.st, s.q);
            for (op, _) in &ops[..n] { if allowed(op, &read_state(&again)) { apply(op, &mut again, h2, c2); } }
            if again != a { return Err("the same history did not reproduce the same CPU".into()); }
            copy = Some(b);
        }
        if n == ops.len() { break; }
        let (op, _) = &ops[n];
        let st = read_state(&a);
        if !allowed(op, &st) { continue; }
        clear_calls(h1, c1);
        let ra = apply(op, &mut a, h1, c1);
        if let Some(b) = copy.as_mut() {
            clear_calls(h2, c2);
            let rb = apply(op, b, h2, c2);
            let at = |m: String| format!("saved at op {} in {:x?}; op {} {:x?}: {}", save_at, saved, n, op, m);
            if ra != rb { return Err(at(format!("result original {:?} copy {:?}", ra, rb))); }
            let (x, y) = (read_state(&a), read_state(b));
            if x != y { return Err(at(format!("original/copy:{}", x.diff(&y)))); }
            if c1.t != c2.t || h1.hash.get() != h2.hash.get() || c1.hash != c2.hash { return Err(at("bus or clock history differs".into())); }
            if a != *b { return Err(at(format!("instances differ: {:?} / {:?}", a, b))); }
        }
    }
    if let Some(x) = h1.mem_equal(h2) { return Err(format!("memory differs at {:04x}", x)); }
    Ok(())
}
const BUDGET: u64 = 100_000;
fn clear_calls(h: &mut TestHost, k: &mut TestClock) { k.calls = 0; h.nread.set(0); }

fn any_of(fl: Fl, c: &CpuOf) -> Z80Any { let _ = fl; match c { CpuOf::N(c) => c.clone().into(), CpuOf::C(c) => c.clone().into(), CpuOf::B(c) => c.clone().into() } }
enum CpuOf { N(Z80<NMOS>), C(Z80<CMOS>), B(Z80<BM1>) }

fn c13(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let s = setup(&mut t);
    let w = t.w();
    let form = t.w();
    const MIX: Mix = [10, 3, 3, 2, 1, 8, 3];
    let ops: Vec<(HOp, u64)> = case.ops.iter().map(|w| (hop(*w, &MIX), *w)).collect();
    let save_at = if ops.is_empty() { 0 } else { (w >> 1) as usize % (ops.len() + 1) };
    let any = w & 1 == 0;
    ctx.describe(|| format!("any={} form {} saved after {} ops; {:x?} ops {:x?}", any, form % FORMS, save_at, s, ops.iter().map(|o| &o.0).collect::<Vec<_>>()));
    if any { run_c13::<Z80Any>(&s, &ops, save_at, form, ctx)? } else { let t = &mut *ctx; with_flavour!(s.fl, run_c13, (&s, &ops, save_at, form, t))? }
    let f = ctx.h1.fetches;
    ctx.nontrivial = f >= 2 && save_at < ops.len();
    ctx.class_if(s.st.halt, "started halted");
    ctx.class_if(any, "Z80Any");
    Ok(())
}

/// Documents of one type read as another: Z80Any <-> Z80<Q>, and between flavours.
fn c13x(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let fl = t.fl();
    let mut st = t.state();
    let m = t.w();
    let form = t.w();
    match m & 7 { 0 => st.ei = true, 1 => st.pfx = 0xDD, 2 => st.pfx = 0xFD, 3 => st.halt = true, _ => {} }
    let q = m & 8 != 0;
    let lazy = (m >> 8) as i32 & 0x3FF;
    ctx.describe(|| format!("{:?} q={} add_r({}) form {} {:x?}", fl, q, lazy, form % FORMS, st));
    ctx.nontrivial = st.af | st.bc | st.de | st.hl != 0;
    ctx.class_if(lazy != 0, "lazy R");
    let c = match fl {
        Fl::Nmos => { let mut c: Z80<NMOS> = make(fl, &st, q); z80emu::Cpu::add_r(&mut c, lazy); CpuOf::N(c) }
        Fl::Cmos => { let mut c: Z80<CMOS> = make(fl, &st, q); z80emu::Cpu::add_r(&mut c, lazy); CpuOf::C(c) }
        Fl::Bm1 => { let mut c: Z80<BM1> = make(fl, &st, q); z80emu::Cpu::add_r(&mut c, lazy); CpuOf::B(c) }
    };
    let any = any_of(fl, &c);
    macro_rules! check {
        ($e:expr, $want:expr, $what:expr) => {{ let got = $e?; let want = $want; if got != want { return Err(format!("{}: {:?} expected {:?}", $what, got, want)); } }};
    }
    match &c {
        CpuOf::N(c) => {
            check!(through::<_, Z80Any>(c, form), any.clone(), "Z80<NMOS> read as Z80Any");
            check!(through::<_, Z80<NMOS>>(&any, form), c.clone(), "Z80Any read as Z80<NMOS>");
            check!(through::<_, Z80<BM1>>(c, form), c.clone().into_flavour::<BM1>(), "NMOS read as BM1");
            check!(through::<_, Z80<CMOS>>(c, form), c.clone().into_flavour::<CMOS>(), "NMOS read as CMOS");
        }
        CpuOf::C(c) => {
            check!(through::<_, Z80Any>(c, form), any.clone(), "Z80<CMOS> read as Z80Any");
            check!(through::<_, Z80<CMOS>>(&any, form), c.clone(), "Z80Any read as Z80<CMOS>");
            check!(through::<_, Z80<BM1>>(c, form), c.clone().into_flavour::<BM1>(), "CMOS read as BM1");
            check!(through::<_, Z80<NMOS>>(c, form), c.clone().into_flavour::<NMOS>(), "CMOS read as NMOS");
        }
        CpuOf::B(c) => {
            check!(through::<_, Z80Any>(c, form), any.clone(), "Z80<BM1> read as Z80Any");
            check!(through::<_, Z80<BM1>>(&any, form), c.clone(), "Z80Any read as Z80<BM1>");
            check!(through::<_, Z80<NMOS>>(c, form), c.clone().into_flavour::<NMOS>(), "BM1 read as NMOS");
            check!(through::<_, Z80<CMOS>>(c, form), c.clone().into_flavour::<CMOS>(), "BM1 read as CMOS");
        }
    }
    Ok(())
}

/// Time counters survive every format too.
fn c13_clock(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let (w, form) = (case.h[0], case.h[1]);
    ctx.nontrivial = true;
    ctx.describe(|| format!("{:x} form {}", w, form % FORMS));
    macro_rules! one { ($($t:ty),*) => { $({
        // a bare number is not a TOML document, and TOML has no integers beyond i64
        let v = w as $t;
        if form % FORMS == 7 || form % FORMS == 8 {
            if v as i128 <= i64::MAX as i128 {
                let m: std::collections::BTreeMap<String, TsCounter<$t>> = [("t".to_string(), TsCounter::from(v))].into();
                let got: std::collections::BTreeMap<String, TsCounter<$t>> = through(&m, form)?;
                if got != m { return Err(format!("{:?} read back as {:?}", m, got)); }
            }
        } else {
            let c = TsCounter::<$t>::from(v);
            let got: TsCounter<$t> = through(&c, form)?;
            if got != c || got.0.0 != v { return Err(format!("{:?} read back as {:?}", c, got)); }
            // a counter is written as its number
            let plain: $t = through(&c, form)?;
            if plain != v { return Err(format!("{:?} read as a number: {}", c, plain)); }
        }
    })* } }
    one!(u16, i32, u32, i64, u64);
    Ok(())
}

// ---------------------------------------------------------------- C14
/// What a document denotes.
#[derive(Clone, Debug)]
struct Doc { fl: Fl, st: State, ir_lo: u8, r: Option<u8>, wz: bool, q: (bool, bool), has_type: bool, has_q: bool, /* without the null of an empty prefix */ bare: bool }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Target { N, C, B, Any }

fn esc(s: &str, w: u64) -> String {
    if w % 7 != 0 || s.is_empty() { return format!("\"{}\"", s); }
    // one character written as an escape
    let i = (w >> 8) as usize % s.len();
    format!("\"{}\\u{:04x}{}\"", &s[..i], s.as_bytes()[i], &s[i + 1..])
}

/// One of the documented representations of a register pair.
fn pair(v: u16, w: u64) -> String {
    match w & 7 {
        0 => v.to_string(),
        1 if v >= 0x8000 => (v as i16).to_string(),
        2 => format!("[{},{}]", v & 255, v >> 8),
        3 => format!("\"{:x}\"", v), 4 => format!("\"${:04X}\"", v), 5 => format!("\"0x{:04x}\"", v), 6 => esc(&format!("0x{:X}", v), w >> 3),
        _ => format!("{}", v),
    }
}
fn type_name(fl: Fl) -> &'static str { match fl { Fl::Nmos => "NMOS", Fl::Cmos => "CMOS", Fl::Bm1 => "BM1" } }

fn shuffle<T>(v: &mut [T], w: u64) { for i in (1..v.len()).rev() { v.swap(i, (mix(w, i as u64) % (i as u64 + 1)) as usize); } }

fn object(mut f: Vec<(String, String)>, w: u64, order: bool) -> String {
    if order { shuffle(&mut f, w); }
    let (a, b) = [("", ""), (" ", ""), ("\n\t", " "), ("", "\r\n")][(w >> 50) as usize & 3];
    let body: Vec<String> = f.into_iter().map(|(k, v)| format!("{}{}:{}{}", a, esc(&k, mix(w, k.len() as u64 + 3)), b, v)).collect();
    format!("{{{}{}}}", body.join(","), a)
}

impl Doc {
    fn flavour(&self, w: u64) -> String {
        let (k1, k2) = if w & 1 == 0 { ("flagsModified", "lastFlagsModified") } else { ("flags_modified", "last_flags_modified") };
        let mut f = Vec::new();
        // a missing flag means false
        if self.q.0 || w & 6 != 0 { f.push((k1.to_string(), self.q.0.to_string())); }
        if self.q.1 || w & 24 != 0 { f.push((if w & 32 == 0 { k2 } else { "lastFlagsModified" }.to_string(), self.q.1.to_string())); }
        object(f, w, true)
    }
    /// (name, text) of each field in canonical order
    fn fields(&self, w: u64) -> Vec<(String, String)> {
        let s = &self.st;
        let p = |v: u16, n: u64| pair(v, mix(w, n));
        let three = |a: u16, b: u16, c: u16, n: u64| object(vec![("bc".into(), p(a, n)), ("de".into(), p(b, n + 1)), ("hl".into(), p(c, n + 2))], mix(w, n + 60), w & 64 == 0);
        let alt = |a: &str, b: &str, n: u64| if mix(w, n) & 1 == 0 { a.to_string() } else { b.to_string() };
        let mut v = Vec::new();
        if self.has_type { v.push(("type".to_string(), esc(type_name(self.fl), mix(w, 70)))); }
        v.push(("af".into(), p(s.af, 1)));
        v.push((alt("afAlt", "af_alt", 71), p(s.af2, 2)));
        v.push(("regs".into(), three(s.bc, s.de, s.hl, 3)));
        v.push((alt("regsAlt", "regs_alt", 72), three(s.bc2, s.de2, s.hl2, 6)));
        v.push(("index".into(), object(vec![("ix".into(), p(s.ix, 9)), ("iy".into(), p(s.iy, 10))], mix(w, 73), true)));
        v.push(("pc".into(), p(s.pc, 11)));
        v.push(("sp".into(), p(s.sp, 12)));
        if self.wz { v.push(("memptr".into(), p(s.wz, 13))); }
        v.push((alt("lastEi", "last_ei", 74), s.ei.to_string()));
        v.push(("ir".into(), p((s.i as u16) << 8 | self.ir_lo as u16, 14)));
        v.push(("im".into(), esc(&format!("Mode{}", s.im), mix(w, 75))));
        v.push(("iff1".into(), s.iff1.to_string()));
        v.push(("iff2".into(), s.iff2.to_string()));
        v.push(("halt".into(), s.halt.to_string()));
        v.push(("prefix".into(), match s.pfx { 0xDD => esc("Xdd", mix(w, 76)), 0xFD => esc("Yfd", mix(w, 76)), _ => "null".into() }));
        if s.pfx == 0 && self.bare { v.pop(); }
        if let Some(r) = self.r { v.push(("r".into(), r.to_string())); }
        if self.has_q { v.push(("flavour".into(), self.flavour(mix(w, 77)))); }
        v
    }
    /// The registers it denotes when read as `t`.
    fn expect(&self, t: Target) -> (Fl, State, (bool, bool)) {
        let fl = match t { Target::N => Fl::Nmos, Target::C => Fl::Cmos, Target::B => Fl::Bm1, Target::Any => if self.has_type { self.fl } else { Fl::Nmos } };
        let r = self.ir_lo & 0x80 | self.r.unwrap_or(self.ir_lo) & 0x7F;
        (fl, State { r, wz: if self.wz { self.st.wz } else { 0 }, ..self.st }, if self.has_q && fl != Fl::Cmos { self.q } else { (false, false) })
    }
    fn bincode(&self) -> Vec<u8> {
        let s = &self.st;
        let mut b = Vec::new();
        let n = type_name(self.fl);
        b.extend((n.len() as u64).to_le_bytes()); b.extend(n.as_bytes());
        for v in [s.af, s.af2, s.bc, s.de, s.hl, s.bc2, s.de2, s.hl2, s.ix, s.iy, s.pc, s.sp, s.wz] { b.extend(v.to_le_bytes()); }
        b.push(s.ei as u8);
        b.extend([self.ir_lo, s.i]);
        b.extend((s.im as u32).to_le_bytes());
        b.extend([s.iff1 as u8, s.iff2 as u8, s.halt as u8]);
        match s.pfx { 0xDD => b.extend([1, 0, 0, 0, 0]), 0xFD => b.extend([1, 1, 0, 0, 0]), _ => b.push(0) }
        b.push(self.r.unwrap_or(self.ir_lo));
        b.extend([self.q.0 as u8, self.q.1 as u8]);
        b
    }
}

fn check_doc<C: Ser>(c: C, d: &Doc, t: Target, what: &str) -> Result<(), String> {
    let (fl, st, q) = d.expect(t);
    let got = read_state(&c);
    if got != st { return Err(format!("{}: read{}", what, got.diff(&st))); }
    let v = serde_json::to_value(&c).map_err(|e| e.to_string())?;
    if v["type"] != type_name(fl) { return Err(format!("{}: type {} expected {}", what, v["type"], type_name(fl))); }
    let flags = (v["flavour"]["flagsModified"].as_bool(), v["flavour"]["lastFlagsModified"].as_bool());
    if flags != (Some(q.0), Some(q.1)) { return Err(format!("{}: flavour state {:?} expected {:?}", what, flags, q)); }
    if st.pfx == 0 {
        let mut c = c;
        exec_dummy(&mut c, 0x37);
        let f = z80emu::Cpu::get_flags(&c).bits() & 0x28;
        let acc = (st.af >> 8) as u8;
        let want = 0x28 & match fl { Fl::Cmos => acc, _ => if q.0 { acc } else { acc | st.af as u8 } };
        if f != want { return Err(format!("{}: SCF gives {:02x} in bits 5 and 3, expected {:02x}", what, f, want)); }
    }
    Ok(())
}

fn parse<C: Ser>(s: &str, how: u64) -> Result<C, String> {
    match how & 3 {
        0 => serde_json::from_str(s).map_err(|e| e.to_string()),
        1 => serde_json::from_slice(s.as_bytes()).map_err(|e| e.to_string()),
        2 => serde_json::from_reader(s.as_bytes()).map_err(|e| e.to_string()),
        _ => serde_json::from_str::<Value>(s).map_err(|e| e.to_string()).and_then(|v| serde_json::from_value(v).map_err(|e| e.to_string())),
    }
}

fn doc(t: &mut Tape) -> Doc {
    let fl = t.fl();
    let mut st = t.state();
    let m = t.w();
    match m & 7 { 0 => st.ei = true, 1 => st.pfx = 0xDD, 2 => st.pfx = 0xFD, 3 => st.halt = true, _ => {} }
    let ir_lo = st.r;
    Doc {
        fl, st, ir_lo, r: if m >> 3 & 3 == 0 { None } else if m >> 5 & 1 == 0 { Some(ir_lo) } else { Some((m >> 16) as u8) },
        wz: m >> 6 & 3 != 0, q: (m >> 8 & 1 != 0, m >> 9 & 1 != 0), has_type: m >> 10 & 3 != 0, has_q: m >> 12 & 3 != 0, bare: m >> 14 & 7 == 0,
    }
}
const DOC_W: usize = 1 + Tape::STATE_W + 1;
fn target(w: u64) -> Target { [Target::N, Target::C, Target::B, Target::Any][w as usize & 3] }

macro_rules! per_target { ($t:expr, $f:ident, ($($a:expr),*)) => { match $t {
    Target::N => $f::<Z80<NMOS>>($($a),*), Target::C => $f::<Z80<CMOS>>($($a),*), Target::B => $f::<Z80<BM1>>($($a),*), Target::Any => $f::<Z80Any>($($a),*) } } }

fn accept<C: Ser>(d: &Doc, t: Target, w: u64, ctx: &mut Ctx) -> Result<(), String> {
    let style = (w >> 4) % 10;
    match style {
        8 | 9 => {
            // the same document in a format with other integer types and without null
            let s = object(d.fields(mix(w, 1)), mix(w, 2), true);
            let v: Value = serde_json::from_str(&s).map_err(|e| e.to_string())?;
            let text = w >> 20 & 1 == 0;
            ctx.describe(|| format!("{:?} style {} text {} {}", t, style, text, s));
            let c: C = if style == 8 {
                ctx.class("TOML");
                let v = toml_of(&v).unwrap();
                if text { let s = toml::to_string(&v).map_err(|e| e.to_string())?; toml::from_str(&s).map_err(|e| format!("rejected: {} in {}", e, s))? }
                else { v.clone().try_into().map_err(|e| format!("rejected: {} in {:?}", e, v))? }
            } else {
                ctx.class("CBOR");
                let v = cbor_of(&v);
                if text { let mut b = Vec::new(); ciborium::into_writer(&v, &mut b).map_err(|e| e.to_string())?; ciborium::from_reader(&b[..]).map_err(|e| format!("rejected: {} in {:02x?}", e, b))? }
                else { v.deserialized().map_err(|e| format!("rejected: {} in {:?}", e, v))? }
            };
            check_doc(c, d, t, &s)
        }
        0..=4 => {
            ctx.class("JSON object");
            let s = object(d.fields(mix(w, 1)), mix(w, 2), style != 0);
            ctx.describe(|| format!("{:?} {}", t, s));
            let c: C = parse(&s, w >> 8).map_err(|e| format!("rejected: {} in {}", e, s))?;
            check_doc(c, d, t, &s)
        }
        5 | 6 => {
            // arrays: all fields, with the type first or (legacy, length known) without it
            let d = Doc { wz: true, has_q: true, r: Some(d.r.unwrap_or(d.ir_lo)), has_type: style == 5, bare: false, ..d.clone() };
            ctx.class(if style == 5 { "array with type" } else { "legacy array of 17" });
            let v: Vec<String> = d.fields(mix(w, 1)).into_iter().map(|f| f.1).collect();
            let s = format!("[{}]", v.join(","));
            ctx.describe(|| format!("{:?} {}", t, s));
            let c: C = parse(&s, if style == 6 { 3 } else { w >> 8 }).map_err(|e| format!("rejected: {} in {}", e, s))?;
            check_doc(c, &d, t, &s)
        }
        _ => {
            let d = Doc { wz: true, has_q: true, has_type: true, ..d.clone() };
            ctx.class("bincode");
            let b = d.bincode();
            ctx.describe(|| format!("{:?} {:02x?}", t, b));
            let c: C = if w >> 8 & 1 == 0 { bincode::deserialize(&b) } else { bincode::deserialize_from(&b[..]) }.map_err(|e| format!("rejected: {} in {:02x?}", e, b))?;
            check_doc(c, &d, t, "bincode")
        }
    }
}

/// The document as TOML: integers are signed 64-bit ones, an empty option is left out.
fn toml_of(v: &Value) -> Option<toml::Value> {
    Some(match v {
        Value::Null => return None,
        Value::Bool(b) => toml::Value::Boolean(*b),
        Value::Number(n) => toml::Value::Integer(n.as_i64().unwrap()),
        Value::String(s) => toml::Value::String(s.clone()),
        Value::Array(a) => toml::Value::Array(a.iter().filter_map(toml_of).collect()),
        Value::Object(o) => toml::Value::Table(o.iter().filter_map(|(k, v)| Some((k.clone(), toml_of(v)?))).collect()),
    })
}
/// The document as CBOR, where a register pair is a number (a binary format).
fn cbor_of(v: &Value) -> ciborium::Value {
    use ciborium::Value as V;
    let num = |s: &str| RegisterPair::from(u16::from_str_radix(s.trim_start_matches("0x").trim_start_matches('$'), 16).unwrap()).get16();
    fn go(k: &str, v: &Value, num: &dyn Fn(&str) -> u16) -> V {
        match v {
            Value::Null => V::Null,
            Value::Bool(b) => V::Bool(*b),
            Value::Number(n) => V::Integer(if k == "r" { n.as_i64().unwrap() } else { n.as_i64().unwrap() & 0xFFFF }.into()),
            Value::String(s) if ["type", "im", "prefix"].contains(&k) => V::Text(s.clone()),
            Value::String(s) => V::Integer(num(s).into()),
            Value::Array(a) => V::Integer((a[0].as_u64().unwrap() | a[1].as_u64().unwrap() << 8).into()),
            Value::Object(o) => V::Map(o.iter().map(|(k, v)| (V::Text(k.clone()), go(k, v, num))).collect()),
        }
    }
    go("", v, &num)
}

fn c14_accept(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let d = doc(&mut t);
    let w = t.w();
    let tg = target(w);
    ctx.nontrivial = d.st.af != 0 && d.st.bc != d.st.de;
    ctx.class_if(!d.has_type, "no type"); ctx.class_if(!d.wz, "no memptr"); ctx.class_if(d.r.is_none(), "no r"); ctx.class_if(!d.has_q, "no flavour");
    ctx.class_if(d.has_type && tg != Target::Any && type_name(d.fl) != match tg { Target::N => "NMOS", Target::C => "CMOS", _ => "BM1" }, "document of another flavour");
    per_target!(tg, accept, (&d, tg, mix(w, 31), ctx))
}

const BAD_PAIR: &[&str] = &["65536", "-32769", "70000", "-65536", "[256,0]", "[0,256]", "[-1,0]", "[1]", "[1,2,3]", "[]", "{}", "true", "null", "1.5", "\"\"", "\"xyz\"", "\"10000\"", "\"0x\"",
    "\"$\"", "\"0xABCDEF\"", "\"$12345\"", "\" 12\"", "\"12 \"", "\"0x12g4\"", "\"-1\"", "18446744073709551615", "-9223372036854775808", "1e3", "[\"1\",0]", "[null,null]", "{\"lo\":1,\"hi\":2}", "99999999999999999999",
    "4294967296", "4294967295", "-2147483648", "65537", "131071", "-65535", "[0,-1]", "[1.0,2]", "\"$0x12\"", "\"0x-12\"",
    "\"$$12\"", "\"0x0x12\"", "\"0x$12\"", "\"12h\"", "\"1_0\"", "\"#12\"", "\"x12\"", "\"\\u0000\"", "\"１２\"", "\"-$12\"", "\"00x12\"", "\"$ 12\"", "\"0x 12\"", "\"12\\n\"", "[1,2,null]", "[1,2,[]]", "[[1,2]]", "false", "-0.5", "\"&12\""];
const BAD_BOOL: &[&str] = &["0", "1", "null", "\"true\"", "[]", "{}", "\"\""];
const BAD_IM: &[&str] = &["0", "1", "2", "3", "null", "\"Mode3\"", "\"mode0\"", "\"\"", "true", "[]", "\"Mode\"", "\"IM1\""];
const BAD_PREFIX: &[&str] = &["221", "253", "0", "true", "\"Xcb\"", "\"xdd\"", "\"\"", "\"None\"", "[]", "\"dd\""];
const BAD_R: &[&str] = &["256", "-1", "null", "\"12\"", "1.5", "true", "[1]", "65536", "[1,2]"];
const BAD_FLAVOUR: &[&str] = &["5", "\"x\"", "null", "{\"flagsModified\":1}", "{\"lastFlagsModified\":null}", "{\"flags_modified\":\"true\"}", "true", "{\"flagsModified\":true,\"flagsModified\":true}", "{\"flagsModified\":true,\"flags_modified\":true}"];
const BAD_TYPE: &[&str] = &["5", "null", "true", "[]", "{}"];
const BAD_TYPE_ANY: &[&str] = &["\"nmos\"", "\"\"", "\"Z80\"", "\"CMOS \"", "\"BM2\"", "\"NMO\"", "\"NMOSX\""];
const BAD_DOC: &[&str] = &["5", "null", "true", "\"NMOS\"", "[]", "{}", "[\"NMOS\"]", "[0]", "\"\"", "[[]]", "{\"type\":\"NMOS\"}", "-1", "1.0", "[\"CMOS\",0,0]", ""];

fn reject<C: Ser>(d: &Doc, t: Target, w: u64, ctx: &mut Ctx) -> Result<(), String> {
    let v = mix(w, 1);
    let pick = |l: &[&str]| l[(v >> 8) as usize % l.len()].to_string();
    let kind = w % 12;
    let (s, what) = match kind {
        10 | 11 => {
            // bincode
            let d = Doc { wz: true, has_q: true, has_type: true, ..d.clone() };
            let mut b = d.bincode();
            let n = type_name(d.fl).len() + 8;
            let at_ei = n + 26;
            let what;
            match v & 7 {
                0 | 1 | 2 => { b.truncate((v >> 8) as usize % b.len()); what = "truncated"; }
                3 => { let o = [at_ei, at_ei + 7, at_ei + 8, at_ei + 9][(v >> 8) as usize & 3]; b[o] = 2 + (v >> 16) as u8 % 254; what = "bad bool"; }
                4 => { b[at_ei + 3 + (v >> 8) as usize % 4] = 3 + (v >> 16) as u8 % 253; what = "bad interrupt mode"; }
                5 => { b[at_ei + 10] = 2 + (v >> 16) as u8 % 254; what = "bad option tag"; }
                6 => { let l = b.len(); b[l - 1 - (v >> 8) as usize % 2] = 2 + (v >> 16) as u8 % 254; what = "bad flavour bool"; }
                _ => { b[8 + (v >> 8) as usize % (n - 8)] ^= 1 << (v >> 16 & 7); what = "bad type name"; }
            }
            ctx.class("bincode");
            ctx.describe(|| format!("{:?} {}: {:02x?}", t, what, b));
            let r: Result<C, _> = if v >> 40 & 1 == 0 { bincode::deserialize(&b) } else { if what == "bad type name" || what == "truncated" { bincode::deserialize(&b) } else { bincode::deserialize_from(&b[..]) } };
            return match r { Err(_) => Ok(()), Ok(c) => Err(format!("bincode {} accepted: {:02x?} as {:?}", what, b, c)) };
        }
        9 => (pick(BAD_DOC), "not a document"),
        _ => {
            let mut f = d.fields(mix(w, 5));
            let what;
            match kind {
                0 | 1 | 2 => {
                    let names = ["af", "afAlt", "af_alt", "pc", "sp", "memptr", "ir"];
                    let idx: Vec<usize> = f.iter().enumerate().filter(|(_, x)| names.contains(&x.0.as_str())).map(|x| x.0).collect();
                    if v & 1 == 0 {
                        f[idx[(v >> 40) as usize % idx.len()]].1 = pick(BAD_PAIR);
                    } else {
                        // inside one of the register groups
                        let (i, keys): (usize, &[&str]) = match v >> 4 & 3 {
                            0 => (f.iter().position(|x| x.0 == "index").unwrap(), &["ix", "iy"]),
                            1 => (f.iter().position(|x| x.0.starts_with("regsA") || x.0 == "regs_alt").unwrap(), &["bc", "de", "hl"]),
                            _ => (f.iter().position(|x| x.0 == "regs").unwrap(), &["bc", "de", "hl"]),
                        };
                        let bad = (v >> 40) as usize % keys.len();
                        let miss = v >> 50 & 3 == 0;
                        let g: Vec<(String, String)> = keys.iter().enumerate().filter(|(k, _)| !(miss && *k == bad))
                            .map(|(k, n)| (n.to_string(), if k == bad { pick(BAD_PAIR) } else { pair((v >> 16) as u16, mix(v, k as u64)) })).collect();
                        f[i].1 = object(g, mix(w, 9), true);
                    }
                    what = "bad register pair";
                }
                3 => { let idx: Vec<usize> = f.iter().enumerate().filter(|(_, x)| ["lastEi", "last_ei", "iff1", "iff2", "halt"].contains(&x.0.as_str())).map(|x| x.0).collect();
                    f[idx[(v >> 40) as usize % idx.len()]].1 = pick(BAD_BOOL); what = "bad bool"; }
                4 => { let (n, l) = match v & 7 { 0 | 1 => ("im", BAD_IM), 2 => ("prefix", BAD_PREFIX), 3 => ("r", BAD_R), 4 => ("flavour", BAD_FLAVOUR), 5 => ("type", BAD_TYPE),
                        _ => if t == Target::Any { ("type", BAD_TYPE_ANY) } else { ("prefix", BAD_PREFIX) } };
                    let val = pick(l);
                    match f.iter_mut().find(|x| x.0 == n) { Some(x) => x.1 = val, None => f.push((n.to_string(), val)) }
                    what = "bad field"; }
                5 | 6 => {
                    let i = (v >> 8) as usize % f.len();
                    let (k, val) = f[i].clone();
                    let k2 = match k.as_str() { "afAlt" => "af_alt", "af_alt" => "afAlt", "regsAlt" => "regs_alt", "regs_alt" => "regsAlt", "lastEi" => "last_ei", "last_ei" => "lastEi", x => x };
                    f.push((if v & 1 == 0 { k.clone() } else { k2.to_string() }, val));
                    what = "duplicate field";
                }
                7 => {
                    let idx: Vec<usize> = f.iter().enumerate().filter(|(_, x)| !["type", "memptr", "r", "flavour", "prefix"].contains(&x.0.as_str())).map(|x| x.0).collect();
                    f.remove(idx[(v >> 8) as usize % idx.len()]);
                    what = "missing field";
                }
                _ => what = "truncated or trailing",
            }
            let mut s = object(f, mix(w, 6), true);
            if kind == 8 {
                if v & 3 == 0 { s.push_str([",", "}", "x", "{}", "0", "\"\""][(v >> 8) as usize % 6]); } else { let n = (v >> 8) as usize % s.len(); s.truncate(n); }
            }
            (s, what)
        }
    };
    ctx.class(match kind { 0 | 1 | 2 => "bad register pair", 3 => "bad bool", 4 => "bad field", 5 | 6 => "duplicate field", 7 => "missing field", 8 => "truncated or trailing", _ => "not a document" });
    ctx.describe(|| format!("{:?} {}: {}", t, what, s));
    // through a generic value duplicates are dropped before the CPU type sees them
    let how = w >> 30 & if what == "duplicate field" || s.contains("flagsModified\":true,") { 1 } else { 3 };
    match parse::<C>(&s, how) { Err(_) => Ok(()), Ok(c) => Err(format!("{} accepted: {} as {:?}", what, s, c)) }
}

fn c14_reject(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let d = doc(&mut t);
    let w = t.w();
    let tg = target(t.w());
    ctx.nontrivial = true;
    per_target!(tg, reject, (&d, tg, w, ctx))
}

fn arbitrary<C: Ser>(d: &Doc, w: u64, ops: &[u64], ctx: &mut Ctx) -> Result<(), String> {
    let json = w & 1 == 0;
    let mut b: Vec<u8> = match w >> 1 & 7 {
        0 => Vec::new(),
        _ => if json { object(d.fields(mix(w, 1)), mix(w, 2), true).into_bytes() } else { Doc { wz: true, has_q: true, has_type: true, ..d.clone() }.bincode() },
    };
    const TOK: &[&str] = &["\"", "[", "]", "{", "}", ",", ":", "null", "true", "-1", "65536", "1e999", "\\u0000", "\"af\":", "\"type\":\"BM1\"", "\"0x1234\"", "\\ud800", "\u{7f}", "é", "-"];
    for z in ops {
        if b.is_empty() || z & 7 == 0 {
            let at = (z >> 40) as usize % (b.len() + 1);
            let ins: Vec<u8> = if json { TOK[(z >> 8) as usize % TOK.len()].as_bytes().to_vec() } else { vec![(z >> 8) as u8] };
            b.splice(at..at, ins);
        } else {
            let at = (z >> 40) as usize % b.len();
            match z & 7 {
                1 | 2 => b[at] = (z >> 8) as u8, 3 => { b.remove(at); } 4 => { let c = b[at]; b.insert(at, c); }
                5 => b[at] = b"0123456789abcdefx$-,:{}[]\"tf"[(z >> 8) as usize % 28],
                6 => { let o = (z >> 8) as usize % b.len(); b.swap(at, o); }
                _ => b[at] ^= 1 << (z >> 8 & 7),
            }
        }
    }
    ctx.describe(|| format!("json={} {:?}", json, String::from_utf8_lossy(&b)));
    let r: Option<C> = if json {
        let r = serde_json::from_slice::<C>(&b).ok();
        if let Ok(s) = std::str::from_utf8(&b) {
            let r2 = serde_json::from_str::<C>(s).ok();
            if r != r2 { return Err(format!("from_slice and from_str disagree on {:?}", s)); }
        }
        r
    } else { bincode::deserialize::<C>(&b).ok() };
    ctx.nontrivial = !b.is_empty();
    ctx.class(if r.is_some() { "accepted" } else { "rejected" });
    if let Some(c) = r {
        for f in [0, 3, 4] {
            let back: C = through(&c, f)?;
            if back != c { return Err(format!("{:?} read from {:?} does not survive a round trip: {:?}", c, String::from_utf8_lossy(&b), back)); }
        }
    }
    Ok(())
}
fn c14_arbitrary(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = Tape::new(&case.h);
    let d = doc(&mut t);
    let w = t.w();
    let tg = target(t.w());
    per_target!(tg, arbitrary, (&d, w, &case.ops, ctx))
}

/// Every register pair value in every form; i: value.
fn c14_pairs(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let v = case.h[0] as u16;
    let want = RegisterPair::from(v);
    ctx.nontrivial = true;
    ctx.describe(|| format!("{:04x}", v));
    let mut forms = vec![v.to_string(), format!("[{},{}]", v & 255, v >> 8), format!("\"{:x}\"", v), format!("\"{:04X}\"", v), format!("\"${:x}\"", v), format!("\"0x{:X}\"", v), format!("\"0x{:04x}\"", v)];
    if v >= 0x8000 { forms.push((v as i16).to_string()); }
    if want.get16() != v || want.get() != ((v >> 8) as u8, v as u8) { return Err(format!("RegisterPair::from({:04x}) is {:?}", v, want)); }
    for s in &forms {
        for how in 0..4 {
            let got: Result<RegisterPair, String> = match how {
                0 => serde_json::from_str(s).map_err(|e| e.to_string()), 1 => serde_json::from_slice(s.as_bytes()).map_err(|e| e.to_string()),
                2 => serde_json::from_reader(s.as_bytes()).map_err(|e| e.to_string()),
                _ => serde_json::from_value(serde_json::from_str::<Value>(s).unwrap()).map_err(|e| e.to_string()),
            };
            if got.as_ref().map(|p| p.get16()) != Ok(v) { return Err(format!("{} read as {:?}", s, got)); }
        }
    }
    if serde_json::to_string(&want).unwrap() != v.to_string() { return Err(format!("{:04x} written as {}", v, serde_json::to_string(&want).unwrap())); }
    let b = bincode::serialize(&want).unwrap();
    if b != v.to_le_bytes() || bincode::deserialize::<RegisterPair>(&b).ok() != Some(want) { return Err(format!("{:04x} in bincode: {:02x?}", v, b)); }
    // formats present integers in a type of their own
    use serde::de::{value::*, Deserialize, IntoDeserializer};
    type E = serde::de::value::Error;
    fn rd<'de, D: serde::Deserializer<'de, Error = E>>(d: D) -> Result<u16, String> { RegisterPair::deserialize(d).map(|p| p.get16()).map_err(|e| e.to_string()) }
    let (s, i) = (forms[2].trim_matches('"'), v as i16);
    let mut ints: Vec<(&str, Result<u16, String>)> = vec![
        ("u16", rd(U16Deserializer::<E>::new(v))), ("i16", rd(I16Deserializer::<E>::new(i))), ("u32", rd(U32Deserializer::<E>::new(v as u32))), ("i32 signed", rd(I32Deserializer::<E>::new(i as i32))),
        ("i32 unsigned", rd(I32Deserializer::<E>::new(v as i32))), ("i64 signed", rd(I64Deserializer::<E>::new(i as i64))), ("i64 unsigned", rd(I64Deserializer::<E>::new(v as i64))),
        ("u64", rd(U64Deserializer::<E>::new(v as u64))), ("str", rd(StrDeserializer::<E>::new(s))), ("string", rd(StringDeserializer::<E>::new(s.to_string()))),
        ("borrowed str", rd(BorrowedStrDeserializer::<E>::new(s))), ("pair", rd(SeqDeserializer::<_, E>::new(vec![v as u8, (v >> 8) as u8].into_iter()))),
    ];
    if v < 256 { ints.push(("u8", rd(U8Deserializer::<E>::new(v as u8)))); }
    if i as i8 as i16 == i { ints.push(("i8", rd(I8Deserializer::<E>::new(i as i8)))); }
    for (n, r) in ints { if r != Ok(v) { return Err(format!("{:04x} presented as {}: {:?}", v, n, r)); } }
    for r in [rd(U32Deserializer::<E>::new(v as u32 + 65536)), rd(I32Deserializer::<E>::new(v as i32 + 65536)), rd(I32Deserializer::<E>::new(-(v as i32) - 32769)), rd(I64Deserializer::<E>::new((v as i64) << 16 | 1 << 40)),
        rd(I64Deserializer::<E>::new(-(v as i64) - 32769)), rd(U64Deserializer::<E>::new(v as u64 | 1 << 63)), rd(I64Deserializer::<E>::new(v as i64 | i64::MIN)), rd(BoolDeserializer::<E>::new(v & 1 != 0)),
        rd(SeqDeserializer::<_, E>::new(vec![v as u8, (v >> 8) as u8, 0].into_iter())), rd(SeqDeserializer::<_, E>::new(vec![v as u8].into_iter())), rd(().into_deserializer())] {
        if let Ok(p) = r { return Err(format!("an integer out of range was read as {:04x} (from {:04x})", p, v)); }
    }
    let x = v as u64 * 0x1_0001;
    for bad in [(v as u64 + 65536).to_string(), (-(v as i64) - 32769).to_string(), format!("[{},{}]", (v as u64) + 256, v & 255), format!("[{},{}]", v & 255, (v as u64) + 256), format!("[{},{},0]", v & 255, v >> 8),
        format!("[{}]", v & 255), format!("\"{:x}\"", v as u64 + 65536), format!("\"${:x}\"", v as u64 + 65536), format!("\"0x{:x}g\"", v), format!("\"$${:x}\"", v), format!("\"0x0x{:x}\"", v), format!("\"{:x}h\"", v), format!("\"0x${:x}\"", v), format!("{}.5", v), format!("{}", x << 16 | 1 << 40)] {
        if let Ok(p) = serde_json::from_str::<RegisterPair>(&bad) { return Err(format!("{} accepted as {:?}", bad, p)); }
    }
    Ok(())
}

fn enums(_: &Case, ctx: &mut Ctx) -> Result<(), String> {
    ctx.nontrivial = true;
    for (m, n) in [(InterruptMode::Mode0, "\"Mode0\""), (InterruptMode::Mode1, "\"Mode1\""), (InterruptMode::Mode2, "\"Mode2\"")] {
        if serde_json::to_string(&m).unwrap() != n || serde_json::from_str::<InterruptMode>(n).ok() != Some(m) { return Err(format!("{:?}", m)); }
        if bincode::deserialize::<InterruptMode>(&bincode::serialize(&m).unwrap()).ok() != Some(m) { return Err(format!("bincode {:?}", m)); }
    }
    for (p, n) in [(Prefix::Xdd, "\"Xdd\""), (Prefix::Yfd, "\"Yfd\"")] {
        if serde_json::to_string(&p).unwrap() != n || serde_json::from_str::<Prefix>(n).ok() != Some(p) { return Err(format!("{:?}", p)); }
        if bincode::deserialize::<Prefix>(&bincode::serialize(&p).unwrap()).ok() != Some(p) { return Err(format!("bincode {:?}", p)); }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _ = Out::Ok;
    vec![
        Prop {
            id: "C13",
            parts: vec![
                Part { name: "save and continue", nh: HIST_W + 2, max_ops: 24, quick: 2_000_000, thorough: 40_000_000, run: c13, enumerate: None },
                Part { name: "clock counters", nh: 2, max_ops: 0, quick: 60_000, thorough: 4_000_000, run: c13_clock, enumerate: None },
                Part { name: "across types", nh: 1 + Tape::STATE_W + 2, max_ops: 0, quick: 1_000_000, thorough: 20_000_000, run: c13x, enumerate: None },
            ],
            rule: "a case is a history of up to 24 operations, a point in it at which the CPU is saved and restored, and two of 12 ways to save (JSON text, pretty, reader, value; TOML text and value; CBOR bytes and value; bincode fixed, stream, big-endian varint); non-trivial: at least 2 opcodes executed and operations follow the save; distinct by generated words",
            assumptions: &["is_irq is a level: a function of the time and of acknowledgements, not of how often it is polled"],
        },
        Prop {
            id: "C14",
            parts: vec![
                Part { name: "accepted documents", nh: DOC_W + 1, max_ops: 0, quick: 600_000, thorough: 60_000_000, run: c14_accept, enumerate: None },
                Part { name: "rejected documents", nh: DOC_W + 2, max_ops: 0, quick: 600_000, thorough: 60_000_000, run: c14_reject, enumerate: None },
                Part { name: "arbitrary bytes", nh: DOC_W + 2, max_ops: 6, quick: 600_000, thorough: 80_000_000, run: c14_arbitrary, enumerate: None },
                Part { name: "every register pair", nh: 1, max_ops: 0, quick: 0, thorough: 0, run: c14_pairs, enumerate: Some((|_| 65536, |i| Case { h: vec![i], ops: vec![] })) },
                Part { name: "enums", nh: 1, max_ops: 0, quick: 0, thorough: 0, run: enums, enumerate: Some((|_| 1, |i| Case { h: vec![i], ops: vec![] })) },
            ],
            rule: "a case is a document: the values it denotes, the spelling and order of its fields, the form of each register pair, the reader used and the type read, or such a document made invalid in one stated way, or mutated at random; distinct by generated words",
            assumptions: &["only documented forms are required to be accepted; forms that are accepted without being documented (an explicit + in hex strings, nested arrays) are not judged"],
        },
    ]
}
