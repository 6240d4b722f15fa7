#!/usr/bin/env python3
"""Random source mutants of the crate, run against all checks at a small scale; survivors are listed for inspection.

usage: mutate.py [--lanes N] [--seed S] [--count N] [--scale F] [--files a,b] [--guarded] [--first] [--out FILE] [--dir PREFIX]
--guarded: the mutation acts only in a rare state of the CPU; --first: stop at the first check which reports it   (scratch: /tmp/mut<k>, /tmp/mut_results.json)
"""
import shutil, json, os, random, re, subprocess, sys, threading, time
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def opt(n, d):
    a = sys.argv
    return type(d)(a[a.index(n) + 1]) if n in a else d
lanes, seed, count, scale, files = opt("--lanes", 3), opt("--seed", 1), opt("--count", 100), opt("--scale", 0.1), opt("--files", "")
SRC = ["src/disasm.rs", "src/host.rs", "src/macros.rs", "src/z80.rs", "src/lib.rs", "src/cpu.rs", "src/cpu/debug.rs", "src/cpu/flags.rs", "src/cpu/parse.rs",
       "src/cpu/registers.rs", "src/z80/any.rs", "src/z80/flavours.rs", "src/z80/instructions.rs", "src/z80/internal.rs",
       "src/z80/macros.rs", "src/z80/opcodes.rs", "src/z80/ops.rs", "src/z80/serde.rs", "src/z80/debug.rs"]
guarded, first = "--guarded" in sys.argv, "--first" in sys.argv
res_path = opt("--out", "/tmp/mut_results.json")
if files: SRC = files.split(",")
props = [json.loads(l)["id"] for l in open(verif + "/properties.jsonl")]
OPS = [(r"wrapping_add", "wrapping_sub"), (r"wrapping_sub", "wrapping_add"), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \| ", " & "), (r" & ", " | "), (r" \^ ", " | "), (r" << ", " >> "), (r" >> ", " << "),
       (r" \+ ", " - "), (r" - ", " + "), (r"8hi\b", "8lo"), (r"8lo\b", "8hi"), (r"\.bc\b", ".de"), (r"\.de\b", ".hl"), (r"\.hl\b", ".bc"), (r"\bix\b", "iy"), (r"\biy\b", "ix"),
       (r"\bhi\b", "lo"), (r"\blo\b", "hi"), (r"\bvhi\b", "vlo"), (r"\biff1\b", "iff2"), (r"\biff2\b", "iff1"), (r"Increase", "Decrease"), (r"if !", "if "), (r"(?<=\()!(?=[a-z])", ""),
       (r" >= ", " > "), (r" > ", " >= "), (r" <= ", " < "), (r" < ", " <= "), (r"\+= ", "-= "), (r"-= ", "+= "), (r"NO_MREQ_X1\b", "NO_MREQ_X2"), (r"NO_MREQ_X5\b", "NO_MREQ_X4"),
       (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"), (r"Some\((\w+)\)", r"None"), (r"wrapping_", "saturating_")]
def sites(f, text):
    out = []
    lines = text.split("\n")
    end = len(lines)
    for i, l in enumerate(lines):
        if l.strip() == "#[cfg(test)]" and i + 1 < len(lines) and lines[i + 1].startswith("mod tests {"): end = i; break
    incom = False
    for i, l in enumerate(lines[:end]):
        s = l.strip()
        if s.startswith("/*"): incom = True
        if incom:
            if "*/" in s: incom = False
            continue
        if s.startswith("//") or s.startswith("#[") or s.startswith("use ") or s.startswith("///"): continue
        code = l.split(" //")[0]
        for p, r in OPS:
            for m in re.finditer(p, code):
                new = code[:m.start()] + m.expand(r) + code[m.end():]
                if new != code: out.append((f, i, l, new))
        for m in re.finditer(r"(?<![\w.])(0x[0-9A-Fa-f_]+|0b[01_]+|\d+)(?![\w.])", code):
            v = int(m.group(1).replace("_", ""), 0) if not re.match(r"^0\d", m.group(1)) else 0
            for d in (1, -1):
                if v + d >= 0: out.append((f, i, l, code[:m.start()] + str(v + d) + code[m.end():]))
        if s.endswith(";") and re.match(r"(self\.|\$cpu\.|tsc\.|\$tsc\.|control\.|\$pc|flags\.|\$flags|\*flags|cpu\.|cursor)", s):
            out.append((f, i, l, ""))
    if guarded: out = [g for g in (guard(*x) for x in out) if g]
    return out
GUARDS = ["{}.pc.get16() == 0xFFFF", "{}.sp.get16() < 2", "{}.sp.get16() == 0x3FE7", "{}.iff1 != {}.iff2", "{}.r.0 & 0x7F == 0x7F", "{}.r.0 >= 0x80 && {}.ir.get8lo() < 0x80",
          "{}.regs.hl.get16() == 0xFFFF", "{}.regs.hl.get8lo() == 0xFF && {}.regs.hl.get8hi() & 1 == 0", "{}.regs.bc.get16() == 0x0100", "{}.index.iy.get16() >= 0xFF80", "{}.index.ix.get16() < 0x80 && {}.regs.de.get16() == 0x5C3A",
          "{}.im == InterruptMode::Mode2", "{}.af.get8hi() == 0x80", "{}.af_alt.get8lo() & 0xC1 == 0xC1 && {}.iff1", "{}.memptr.get8hi() == 0x28", "{}.regs.bc.get8hi() == 1 && {}.regs.bc.get8lo() == 0xFE", "{}.pc.get16() & 0xFF == 0xFF && {}.im == InterruptMode::Mode1"]
def guard(f, i, old, new):
    """The mutation made to happen only in a rare state of the CPU."""
    if f not in ("src/z80.rs", "src/z80/internal.rs", "src/z80/instructions.rs"): return None
    me = "$cpu" if f.endswith("instructions.rs") else "self"
    g = GUARDS[(sum(map(ord, new)) * 7 + i) % len(GUARDS)].replace("{}", me)
    m, n = re.match(r"^(\s*let (?:mut )?[\w\s,():]+ = )([^{}]+);\s*(?://.*)?$", old), re.match(r"^(\s*let (?:mut )?[\w\s,():]+ = )([^{}]+);\s*(?://.*)?$", new)
    if m and n and m[1] == n[1]: return (f, i, old, f"{m[1]}if {g} {{ {n[2]} }} else {{ {m[2]} }};")
    o, w = old.strip(), new.strip()
    if "let " in o or "{" in o or "}" in o or not o.endswith(";") or not re.match(r"(self\.|\$cpu\.|tsc\.|\$tsc\.|control\.|\$pc|flags\.|\$flags|\*flags|ops::|push|write)", o): return None
    return (f, i, old, f"if {g} {{ {w} }} else {{ {o} }}")
rng = random.Random(seed)
allsites = []
for f in SRC:
    ss = sites(f, open("/repo/" + f).read())
    rng.shuffle(ss)
    # spread over files: weight by square root
    allsites += [(len(ss) ** 0.5, s) for s in ss]
byfile = {}
for _, s in allsites: byfile.setdefault(s[0], []).append(s)
picked = []
names = list(byfile)
w = [len(byfile[n]) ** 0.5 for n in names]
while len(picked) < count and any(byfile.values()):
    n = rng.choices(names, w)[0]
    if byfile[n]: picked.append(byfile[n].pop())
results = json.load(open(res_path)) if os.path.exists(res_path) else []
lock = threading.Lock()
def sh(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait(); return 124, "TIMEOUT"
def run(k):
    d = f"{opt('--dir', '/tmp/mut')}{k}"
    os.makedirs(d + "/harness", exist_ok=True); os.makedirs(d + "/replays", exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "/target", "--exclude", "/.git", "/repo/", d + "/repo/"], check=True)
    subprocess.run(["rsync", "-a", "--delete", verif + "/harness/", d + "/harness/"], check=True)
    c = open(d + "/harness/Cargo.toml").read().replace('"/repo"', f'"{d}/repo"')
    open(d + "/harness/Cargo.toml", "w").write(c)
    subprocess.run(["rsync", "-a", "--delete", verif + "/probe/", d + "/probe/"], check=True); shutil.copy(verif + "/known_findings.txt", d)
    c = open(d + "/probe/Cargo.toml").read().replace('"/repo"', f'"{d}/repo"'); open(d + "/probe/Cargo.toml", "w").write(c)
    while True:
        with lock:
            if not picked: return
            f, i, old, new = picked.pop()
        src = open("/repo/" + f).read()
        lines = src.split("\n")
        lines[i] = new
        open(f"{d}/repo/{f}", "w").write("\n".join(lines))
        r = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
        rc, o = sh("cargo check --offline --quiet --features std,serde --target-dir ../chk", d + "/repo", 300)
        if rc: r["status"] = "nobuild"
        else:
            rc, o = sh(f"cargo build --release --offline --quiet --target-dir {d}/target", d + "/harness", 900)
            if rc: r["status"] = "nobuild-harness"
            else:
                r["caught"] = []
                for p in props:
                    rc, o = sh(f"{d}/target/release/harness {p} quick", d, 300, {"VERIF_SEED": "1", "VERIF_SCALE": str(scale), "Z80EMU_SRC": d + "/repo/src"})
                    if rc == 1 and "VIOLATION property=%s" % p in o: r["caught"].append(p)
                    elif rc: r["caught"].append(p + "?%d" % rc)
                    if first and r["caught"]: break
                r["status"] = "caught" if r["caught"] else "SURVIVED"
        open(f"{d}/repo/{f}", "w").write(src)
        with lock:
            results.append(r); json.dump(results, open(res_path, "w"), indent=0)
            if r["status"] != "nobuild":
                print(r["status"], f"{f}:{i+1}", "|", r["old"][:90], "=>", r["new"][:90], "|", ",".join(r.get("caught", [])), flush=True)
ts = [threading.Thread(target=run, args=(k,)) for k in range(lanes)]
[t.start() for t in ts]; [t.join() for t in ts]
