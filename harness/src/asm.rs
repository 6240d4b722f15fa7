//! An assembler built from a decode table of its own (the x/y/z/p/q scheme of the Z80 opcode matrix): operand text
//! or structured operands -> every byte encoding with that meaning. Also tells instruction lengths.
use std::collections::HashMap;
use std::sync::OnceLock;
use z80emu::{Condition, CpuDebug, CpuDebugAddr, CpuDebugArg, CpuDebugArgs, CpuDebugPort, InterruptMode, Prefix, Reg16, Reg8, StkReg16};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum P { B(u8), N, D, Lo, Hi, E }
use P::*;

const R: [&str; 8] = ["B", "C", "D", "E", "H", "L", "(HL)", "A"];
const RP: [&str; 4] = ["BC", "DE", "HL", "SP"];
const RP2: [&str; 4] = ["BC", "DE", "HL", "AF"];
const CC: [&str; 8] = ["NZ", "Z", "NC", "C", "PO", "PE", "P", "M"];
const ALU: [&str; 8] = ["ADD A, ", "ADC A, ", "SUB ", "SBC A, ", "AND ", "XOR ", "OR ", "CP "];
const ROT: [&str; 8] = ["RLC", "RRC", "RL", "RR", "SLA", "SRA", "SLL", "SRL"];

/// Plain page. None for the prefixes.
fn plain(op: u8) -> Option<(String, Vec<P>)> {
    let (x, y, z) = (op >> 6, (op >> 3 & 7) as usize, (op & 7) as usize);
    let (p, q) = (y >> 1, y & 1);
    let s = |t: &str| t.to_string();
    let mut tail: Vec<P> = vec![];
    let text = match (x, z) {
        (0, 0) => match y {
            0 => s("NOP"), 1 => s("EX AF, AF'"),
            2 => { tail = vec![E]; s("DJNZ e") }
            3 => { tail = vec![E]; s("JR e") }
            _ => { tail = vec![E]; format!("JR {}, e", CC[y - 4]) }
        },
        (0, 1) => if q == 0 { tail = vec![Lo, Hi]; format!("LD {}, nn", RP[p]) } else { format!("ADD HL, {}", RP[p]) },
        (0, 2) => match y {
            0 => s("LD (BC), A"), 2 => s("LD (DE), A"), 1 => s("LD A, (BC)"), 3 => s("LD A, (DE)"),
            4 => { tail = vec![Lo, Hi]; s("LD (nn), HL") }
            5 => { tail = vec![Lo, Hi]; s("LD HL, (nn)") }
            6 => { tail = vec![Lo, Hi]; s("LD (nn), A") }
            _ => { tail = vec![Lo, Hi]; s("LD A, (nn)") }
        },
        (0, 3) => format!("{} {}", ["INC", "DEC"][q], RP[p]),
        (0, 4) => format!("INC {}", R[y]),
        (0, 5) => format!("DEC {}", R[y]),
        (0, 6) => { tail = vec![N]; format!("LD {}, n", R[y]) }
        (0, _) => s(["RLCA", "RRCA", "RLA", "RRA", "DAA", "CPL", "SCF", "CCF"][y]),
        (1, _) => if op == 0x76 { s("HALT") } else { format!("LD {}, {}", R[y], R[z]) },
        (2, _) => format!("{}{}", ALU[y], R[z]),
        (_, 0) => format!("RET {}", CC[y]),
        (_, 1) => if q == 0 { format!("POP {}", RP2[p]) } else { s(["RET", "EXX", "JP (HL)", "LD SP, HL"][p]) },
        (_, 2) => { tail = vec![Lo, Hi]; format!("JP {}, nn", CC[y]) }
        (_, 3) => match y {
            0 => { tail = vec![Lo, Hi]; s("JP nn") }
            1 => return None,
            2 => { tail = vec![N]; s("OUT (n), A") }
            3 => { tail = vec![N]; s("IN A, (n)") }
            4 => s("EX (SP), HL"), 5 => s("EX DE, HL"), 6 => s("DI"), _ => s("EI"),
        },
        (_, 4) => { tail = vec![Lo, Hi]; format!("CALL {}, nn", CC[y]) }
        (_, 5) => if q == 0 { format!("PUSH {}", RP2[p]) } else if p == 0 { tail = vec![Lo, Hi]; s("CALL nn") } else { return None },
        (_, 6) => { tail = vec![N]; format!("{}n", ALU[y]) }
        _ => format!("RST {}", y * 8),
    };
    let mut v = vec![B(op)];
    v.extend(tail);
    Some((text, v))
}

fn cb(op: u8) -> String {
    let (x, y, z) = (op >> 6, (op >> 3 & 7) as usize, (op & 7) as usize);
    match x { 0 => format!("{} {}", ROT[y], R[z]), _ => format!("{} {}, {}", ["", "BIT", "RES", "SET"][x as usize], y, R[z]) }
}
fn ixcb(op: u8, ix: &str) -> String {
    let (x, y, z) = (op >> 6, (op >> 3 & 7) as usize, (op & 7) as usize);
    let dst = if z == 6 || x == 1 { String::new() } else { format!(", {}", R[z]) };
    match x { 0 => format!("{} ({}+d){}", ROT[y], ix, dst), _ => format!("{} {}, ({}+d){}", ["", "BIT", "RES", "SET"][x as usize], y, ix, dst) }
}
fn ed(op: u8) -> (String, Vec<P>) {
    let (x, y, z) = (op >> 6, (op >> 3 & 7) as usize, (op & 7) as usize);
    let (p, q) = (y >> 1, y & 1);
    let mut tail = vec![];
    let text = match (x, z) {
        (1, 0) => if y == 6 { "IN (C)".to_string() } else { format!("IN {}, (C)", R[y]) },
        (1, 1) => if y == 6 { "OUT (C)".to_string() } else { format!("OUT (C), {}", R[y]) },
        (1, 2) => format!("{} HL, {}", ["SBC", "ADC"][q], RP[p]),
        (1, 3) => { tail = vec![Lo, Hi]; if q == 0 { format!("LD (nn), {}", RP[p]) } else { format!("LD {}, (nn)", RP[p]) } }
        (1, 4) => "NEG".to_string(),
        (1, 5) => if y == 1 { "RETI".to_string() } else { "RETN".to_string() },
        (1, 6) => format!("IM {}", [0, 0, 1, 2][y & 3]),
        (1, _) => ["LD I, A", "LD R, A", "LD A, I", "LD A, R", "RRD", "RLD", "NOP*", "NOP*"][y].to_string(),
        (2, 0..=3) if y >= 4 => [["LDI", "CPI", "INI", "OUTI"], ["LDD", "CPD", "IND", "OUTD"], ["LDIR", "CPIR", "INIR", "OTIR"], ["LDDR", "CPDR", "INDR", "OTDR"]][y - 4][z].to_string(),
        _ => "NOP*".to_string(),
    };
    let mut v = vec![B(0xED), B(op)];
    v.extend(tail);
    (text, v)
}
/// The DD/FD page: what the prefix does to `op`; second: whether it changes anything.
fn indexed(pfx: u8, op: u8) -> Option<(String, Vec<P>, bool)> {
    let ix = if pfx == 0xDD { "IX" } else { "IY" };
    let (text, enc) = plain(op)?;
    if op == 0xEB || op == 0xD9 { let mut v = vec![B(pfx)]; v.extend(enc); return Some((text, v, false)); }
    let (mut t, mut v) = (text.clone(), vec![B(pfx), enc[0]]);
    if op == 0xE9 { t = format!("JP ({})", ix); }
    else if text.contains("(HL)") { t = text.replace("(HL)", &format!("({}+d)", ix)); v.push(D); }
    else {
        let (mn, ops) = match text.split_once(' ') { Some((m, o)) => (m, o), None => (text.as_str(), "") };
        let ops: Vec<String> = ops.split(", ").map(|o| match o { "H" => format!("{}H", ix), "L" => format!("{}L", ix), "HL" => ix.to_string(), o => o.to_string() }).collect();
        t = if ops[0].is_empty() { mn.to_string() } else { format!("{} {}", mn, ops.join(", ")) };
    }
    v.extend(enc[1..].iter().copied());
    let ch = t != text;
    Some((t, v, ch))
}

/// Template text and layout of the instruction at the start of `b` (with its prefix, if it is one of DD/FD applying to
/// what follows). Third: whether a leading DD/FD changes the meaning. None if the bytes start with a superseded prefix.
pub fn decode(b: &[u8]) -> Option<(String, Vec<P>, bool)> {
    let g = |i: usize| b.get(i).copied().unwrap_or(0);
    match g(0) {
        0xCB => Some((cb(g(1)), vec![B(0xCB), B(g(1))], false)),
        0xED => { let (t, v) = ed(g(1)); Some((t, v, false)) }
        p @ (0xDD | 0xFD) => match g(1) {
            0xDD | 0xFD | 0xED => None,
            0xCB => Some((ixcb(g(3), if p == 0xDD { "IX" } else { "IY" }), vec![B(p), B(0xCB), D, B(g(3))], true)),
            op => indexed(p, op),
        },
        op => { let (t, v) = plain(op).unwrap(); Some((t, v, false)) }
    }
}

fn table() -> &'static HashMap<String, Vec<Vec<P>>> {
    static T: OnceLock<HashMap<String, Vec<Vec<P>>>> = OnceLock::new();
    T.get_or_init(|| {
        let mut m: HashMap<String, Vec<Vec<P>>> = HashMap::new();
        let mut add = |b: &[u8]| if let Some((t, v, _)) = decode(b) { m.entry(t).or_default().push(v); };
        for op in 0..=255u8 {
            if !matches!(op, 0xCB | 0xED | 0xDD | 0xFD) { add(&[op]); }
            add(&[0xCB, op]); add(&[0xED, op]);
            for p in [0xDD, 0xFD] { if op != 0xCB { add(&[p, op]); } add(&[p, 0xCB, 0, op]); }
        }
        m
    })
}

#[derive(Clone, Debug, PartialEq)]
pub enum Opnd { Lit(String), Num(i64), Mem(i64), Idx(&'static str, i64) }

/// Every encoding of the given instruction at `pc`.
pub fn assemble(mn: &str, ops: &[Opnd], pc: u16) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    let alts: Vec<Vec<(String, Option<i64>)>> = ops.iter().map(|o| match o {
        Opnd::Lit(s) => vec![(s.clone(), None)],
        Opnd::Num(v) => vec![("n".into(), Some(*v)), ("nn".into(), Some(*v)), ("e".into(), Some(*v)), (v.to_string(), None)],
        Opnd::Mem(v) => vec![("(n)".into(), Some(*v)), ("(nn)".into(), Some(*v))],
        Opnd::Idx(r, d) => vec![(format!("({}+d)", r), Some(*d))],
    }).collect();
    let total: usize = alts.iter().map(|a| a.len()).product();
    for mut k in 0..total {
        let mut t = mn.to_string();
        let mut vals: Vec<(&str, i64)> = Vec::new();
        for (i, a) in alts.iter().enumerate() {
            let (s, v) = &a[k % a.len()];
            k /= a.len();
            t.push_str(if i == 0 { " " } else { ", " });
            t.push_str(s);
            if let Some(v) = v { vals.push((s, *v)); }
        }
        let Some(encs) = table().get(&t) else { continue };
        for e in encs {
            let find = |f: &dyn Fn(&str) -> bool| vals.iter().find(|(s, _)| f(s)).map(|x| x.1);
            let n = find(&|s| s == "n" || s == "(n)");
            let nn = find(&|s| s == "nn" || s == "(nn)");
            let d = find(&|s| s.ends_with("+d)"));
            let ee = find(&|s| s == "e");
            let mut b = Vec::new();
            let mut ok = true;
            for p in e {
                match p {
                    B(x) => b.push(*x),
                    N => match n { Some(v) if (0..256).contains(&v) => b.push(v as u8), _ => ok = false },
                    D => match d { Some(v) if (-128..128).contains(&v) => b.push(v as i8 as u8), _ => ok = false },
                    Lo => match nn { Some(v) if (0..65536).contains(&v) => b.push(v as u8), _ => ok = false },
                    Hi => match nn { Some(v) => b.push((v >> 8) as u8), _ => ok = false },
                    E => match ee {
                        Some(v) if (0..65536).contains(&v) => {
                            // relative to the byte after the instruction, which counts a useless prefix
                            let off = (v as u16).wrapping_sub(pc.wrapping_add(e.len() as u16)) as i16;
                            if (-128..128).contains(&off) { b.push(off as u8) } else { ok = false }
                        }
                        _ => ok = false,
                    },
                }
            }
            if ok { out.push(b); }
        }
    }
    out
}

// ---- structured operands of a report
fn px(p: Prefix) -> &'static str { match p { Prefix::Xdd => "IX", Prefix::Yfd => "IY" } }
pub fn reg8(r: Reg8) -> &'static str { match r { Reg8::B => "B", Reg8::C => "C", Reg8::D => "D", Reg8::E => "E", Reg8::H => "H", Reg8::L => "L", Reg8::A => "A" } }
pub fn reg16(r: Reg16) -> &'static str { match r { Reg16::BC => "BC", Reg16::DE => "DE", Reg16::HL => "HL", Reg16::SP => "SP" } }
pub fn stk16(r: StkReg16) -> &'static str { match r { StkReg16::BC => "BC", StkReg16::DE => "DE", StkReg16::HL => "HL", StkReg16::AF => "AF" } }
pub fn cond(c: Condition) -> &'static str {
    match c { Condition::NZ => "NZ", Condition::Z => "Z", Condition::NC => "NC", Condition::C => "C", Condition::PO => "PO", Condition::PE => "PE", Condition::P => "P", Condition::M => "M" }
}
fn opnd(a: &CpuDebugArg) -> Opnd {
    let lit = |s: &str| Opnd::Lit(s.to_string());
    match a {
        CpuDebugArg::Imm8(n) => Opnd::Num(*n as i64),
        CpuDebugArg::Bit(b) => lit(&b.to_string()),
        CpuDebugArg::IntMode(m) => lit(match m { InterruptMode::Mode0 => "0", InterruptMode::Mode1 => "1", InterruptMode::Mode2 => "2" }),
        CpuDebugArg::Reg8(p, r) => match (p, r) {
            (Some(p), Reg8::H) => lit(&format!("{}H", px(*p))),
            (Some(p), Reg8::L) => lit(&format!("{}L", px(*p))),
            _ => lit(reg8(*r)),
        },
        CpuDebugArg::Imm16(n) => Opnd::Num(*n as i64),
        CpuDebugArg::Reg16(p, r) => match (p, r) { (Some(p), Reg16::HL) => lit(px(*p)), _ => lit(reg16(*r)) },
        CpuDebugArg::Stk16(r) => lit(stk16(*r)),
        CpuDebugArg::Addr(CpuDebugAddr::ImmAddr(n)) => Opnd::Mem(*n as i64),
        CpuDebugArg::Addr(CpuDebugAddr::RegAddr(r)) => lit(&format!("({})", reg16(*r))),
        CpuDebugArg::Addr(CpuDebugAddr::IndexAddr(p, Some(d))) => Opnd::Idx(px(*p), *d as i64),
        CpuDebugArg::Addr(CpuDebugAddr::IndexAddr(p, None)) => lit(&format!("({})", px(*p))),
        CpuDebugArg::Port(CpuDebugPort::ImmPort(n)) => Opnd::Mem(*n as i64),
        CpuDebugArg::Port(CpuDebugPort::RegPort) => lit("(C)"),
        CpuDebugArg::Cond(c) => lit(cond(*c)),
        CpuDebugArg::I => lit("I"),
        CpuDebugArg::R => lit("R"),
    }
}
pub fn opnds(a: &CpuDebugArgs) -> Vec<Opnd> {
    match a {
        CpuDebugArgs::None => vec![],
        CpuDebugArgs::Single(x) => vec![opnd(x)],
        CpuDebugArgs::Double(CpuDebugArg::Stk16(StkReg16::AF), CpuDebugArg::Stk16(StkReg16::AF)) => vec![Opnd::Lit("AF".into()), Opnd::Lit("AF'".into())],
        CpuDebugArgs::Double(x, y) => vec![opnd(x), opnd(y)],
        CpuDebugArgs::BitOpExt(b, x, r) => vec![Opnd::Lit(b.to_string()), opnd(x), Opnd::Lit(reg8(*r).into())],
    }
}

// ---- text
/// The two number styles of the formats.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Num { Dec, Hex { upper: bool, alt: bool } }
pub const FORMATS: [Num; 5] = [Num::Dec, Num::Hex { upper: false, alt: false }, Num::Hex { upper: true, alt: false }, Num::Hex { upper: false, alt: true }, Num::Hex { upper: true, alt: true }];

pub fn show(d: &CpuDebug, f: Num) -> String {
    match f {
        Num::Dec => format!("{}", d),
        Num::Hex { upper: false, alt: false } => format!("{:x}", d),
        Num::Hex { upper: true, alt: false } => format!("{:X}", d),
        Num::Hex { upper: false, alt: true } => format!("{:#x}", d),
        Num::Hex { upper: true, alt: true } => format!("{:#X}", d),
    }
}
/// The number format of documented examples: n digits, "h" suffix or "0x" prefix.
fn num(v: u32, digits: usize, f: Num) -> String {
    match f {
        Num::Dec => v.to_string(),
        Num::Hex { upper, alt } => {
            let h = if upper { format!("{:0w$X}", v, w = digits) } else { format!("{:0w$x}", v, w = digits) };
            if alt { format!("0x{}", h) } else { format!("{}h", h) }
        }
    }
}
fn arg_text(a: &CpuDebugArg, f: Num) -> String {
    match a {
        CpuDebugArg::Imm8(n) => num(*n as u32, 2, f),
        CpuDebugArg::Imm16(n) => num(*n as u32, 4, f),
        CpuDebugArg::Addr(CpuDebugAddr::ImmAddr(n)) => format!("({})", num(*n as u32, 4, f)),
        CpuDebugArg::Port(CpuDebugPort::ImmPort(n)) => format!("({})", num(*n as u32, 2, f)),
        CpuDebugArg::Addr(CpuDebugAddr::IndexAddr(p, Some(d))) => format!("({}{}{})", px(*p), if *d < 0 { "-" } else { "+" }, num((*d as i32).unsigned_abs(), 2, f)),
        a => match opnd(a) { Opnd::Lit(s) => s, x => panic!("{:?}", x) },
    }
}
pub fn args_text(a: &CpuDebugArgs, f: Num) -> String {
    match a {
        CpuDebugArgs::None => String::new(),
        CpuDebugArgs::Single(x) => arg_text(x, f),
        CpuDebugArgs::Double(CpuDebugArg::Stk16(StkReg16::AF), CpuDebugArg::Stk16(StkReg16::AF)) => "AF, AF'".into(),
        CpuDebugArgs::Double(x, y) => format!("{}, {}", arg_text(x, f), arg_text(y, f)),
        CpuDebugArgs::BitOpExt(b, x, r) => format!("{}, {}, {}", b, arg_text(x, f), reg8(*r)),
    }
}
/// Layout of a line: address, mnemonic in 4 columns, operands in 14 (15 in the alternate form), bytes.
pub fn expected_line(d: &CpuDebug, f: Num) -> String {
    let bytes: Vec<String> = d.code.iter().map(|b| match f {
        Num::Dec => b.to_string(), Num::Hex { upper: true, .. } => format!("{:02X}", b), _ => format!("{:02x}", b),
    }).collect();
    let addr = if f == Num::Dec { format!("{:>5}", d.pc) } else { num(d.pc as u32, 4, f) };
    let w = if matches!(f, Num::Hex { alt: true, .. }) { 15 } else { 14 };
    format!("{} {:<4} {:<w$} [{}]", addr, d.mnemonic, args_text(&d.args, f), bytes.join(", "), w = w)
}

fn parse_num(s: &str, f: Num) -> Option<i64> {
    match f {
        Num::Dec => if s.bytes().all(|b| b.is_ascii_digit()) { s.parse().ok() } else { None },
        Num::Hex { upper, alt } => {
            let h = if alt { s.strip_prefix("0x")? } else { s.strip_suffix('h')? };
            if h.is_empty() || !h.bytes().all(|b| b.is_ascii_digit() || if upper { (b'A'..=b'F').contains(&b) } else { (b'a'..=b'f').contains(&b) }) { return None; }
            i64::from_str_radix(h, 16).ok()
        }
    }
}
fn parse_opnd(s: &str, f: Num) -> Opnd {
    if let Some(i) = s.strip_prefix('(').and_then(|s| s.strip_suffix(')')) {
        for r in ["IX", "IY"] {
            if let Some(d) = i.strip_prefix(r) {
                if let Some(n) = d.strip_prefix('+').and_then(|d| parse_num(d, f)) { return Opnd::Idx(r, n); }
                if let Some(n) = d.strip_prefix('-').and_then(|d| parse_num(d, f)) { return Opnd::Idx(r, -n); }
            }
        }
        if let Some(n) = parse_num(i, f) { return Opnd::Mem(n); }
    } else if let Some(n) = parse_num(s, f) { return Opnd::Num(n); }
    Opnd::Lit(s.to_string())
}
pub struct Line { pub pc: u16, pub mn: String, pub ops: Vec<Opnd>, pub code: Vec<u8> }
/// Reads a line back.
pub fn parse_line(s: &str, f: Num) -> Option<Line> {
    let (left, code) = s.split_once('[')?;
    let code: Vec<u8> = code.strip_suffix(']')?.split(", ").map(|b| if f == Num::Dec { b.parse().ok() } else { u8::from_str_radix(b, 16).ok() }).collect::<Option<_>>()?;
    let left = left.trim();
    let (pc, rest) = left.split_once(' ')?;
    let pc = parse_num(pc, f)?;
    let rest = rest.trim();
    let (mn, ops) = match rest.split_once(' ') { Some((m, o)) => (m, o.trim()), None => (rest, "") };
    let ops = if ops.is_empty() { vec![] } else { ops.split(", ").map(|o| parse_opnd(o, f)).collect() };
    Some(Line { pc: u16::try_from(pc).ok()?, mn: mn.to_string(), ops, code })
}
