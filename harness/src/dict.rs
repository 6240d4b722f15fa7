//! Automatic dictionary of the generators: the integer literals of the tree under test. Literals that occur more often
//! in a file than on the tree the harness was written for (`baseline_literals.json`) are favoured. The dictionary only
//! biases what is generated; the verdict comes from the oracles, and a replay file holds the generated words themselves.
use crate::host::mix;
use std::collections::BTreeMap;
use std::path::Path;

pub type Counts = BTreeMap<String, BTreeMap<u64, u32>>;

fn strip_comments(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = String::with_capacity(s.len());
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(b"//") { while i < b.len() && b[i] != b'\n' { i += 1; } }
        else if b[i..].starts_with(b"/*") { i += 2; while i < b.len() && !b[i..].starts_with(b"*/") { i += 1; } i += 2; }
        else { out.push(b[i] as char); i += 1; }
    }
    out
}

fn literals(s: &str) -> BTreeMap<u64, u32> {
    let s = strip_comments(s);
    let b = s.as_bytes();
    let mut m = BTreeMap::new();
    let word = |c: u8| c == b'_' || c.is_ascii_alphanumeric();
    let mut i = 0;
    while i < b.len() {
        if !word(b[i]) { i += 1; continue; }
        let st = i;
        while i < b.len() && word(b[i]) { i += 1; }
        if !b[st].is_ascii_digit() { continue; }
        let t: String = s[st..i].chars().filter(|c| *c != '_').collect();
        let (radix, t) = match t.get(..2) { Some("0x") => (16, &t[2..]), Some("0b") => (2, &t[2..]), Some("0o") => (8, &t[2..]), _ => (10, &t[..]) };
        let end = t.find(|c: char| !c.is_digit(radix)).unwrap_or(t.len());
        if let Ok(v) = u64::from_str_radix(&t[..end], radix) { *m.entry(v).or_insert(0) += 1; }
    }
    m
}

fn walk(dir: &Path, root: &Path, out: &mut Counts) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() { walk(&p, root, out); }
        else if p.extension().map_or(false, |x| x == "rs") {
            if let Ok(bytes) = std::fs::read(&p) {
                let s: String = bytes.iter().map(|b| if b.is_ascii() { *b as char } else { ' ' }).collect();
                out.insert(p.strip_prefix(root).unwrap_or(&p).display().to_string(), literals(&s));
            }
        }
    }
}

pub fn scan() -> Counts {
    let src = std::env::var("Z80EMU_SRC").unwrap_or_else(|_| "/repo/src".into());
    let mut c = Counts::new();
    walk(Path::new(&src), Path::new(&src), &mut c);
    c
}

pub struct Dict { pub all: Vec<u64>, pub new: Vec<u64> }

pub fn load() -> Dict {
    let base: Counts = serde_json::from_str(include_str!("../baseline_literals.json")).unwrap_or_default();
    let cur = scan();
    let (mut all, mut new) = (Vec::new(), Vec::new());
    for (f, m) in &cur {
        for (v, n) in m {
            all.push(*v);
            if *n > base.get(f).and_then(|b| b.get(v)).copied().unwrap_or(0) { new.extend([*v, v.wrapping_add(1), v.wrapping_sub(1)]); }
        }
    }
    for l in [&mut all, &mut new] { l.sort_unstable(); l.dedup(); }
    Dict { all, new }
}

impl Dict {
    /// Replaces a generated word, now and then, by one that decodes to a dictionary value.
    #[inline]
    pub fn apply(&self, w: u64) -> u64 {
        if w < 1 << 32 { return w; }
        let x = mix(w, 0xD1C7);
        let set = match x & 127 { 0..=11 if !self.new.is_empty() => &self.new, 12 if !self.all.is_empty() => &self.all, _ => return w };
        let pick = |k: u64| set[(k as usize) % set.len()];
        let v = pick(x >> 16);
        match (x >> 7) & 3 {
            // b8() and b16() of the word
            0 | 1 => w & !0xFF_FFFF | (v & 0xFFFF) << 8 | 3,
            // the operand bytes of tape::opcode
            2 => (x >> 40 & 0xFF) << 8 | 3 | ((v & 0xFF) << 8 | 3) << 20 | ((v >> 8 & 0xFF) << 8 | 3) << 40,
            // plain truncation in each 16-bit lane
            _ => (v & 0xFFFF) * 0x0001_0001_0001_0001,
        }
    }
}
