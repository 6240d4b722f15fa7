#!/usr/bin/env python3
"""Tries out candidate bugs: applies each to a copy of /repo, runs the repository's tests and the check of its own property.
usage: trial.py [--lanes N] [--dir PREFIX] FILE [ID...]   FILE: python, TRIALS = [(id, property, [(file, old, new)...])...]
"""
import shutil, os, subprocess, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
lanes, prefix = 3, "/tmp/trial"
if "--lanes" in a: i = a.index("--lanes"); lanes = int(a[i + 1]); del a[i:i + 2]
if "--dir" in a: i = a.index("--dir"); prefix = a[i + 1]; del a[i:i + 2]
ns = {"INT": "src/z80/internal.rs", "Z80": "src/z80.rs", "OPS": "src/z80/ops.rs", "INS": "src/z80/instructions.rs", "ANY": "src/z80/any.rs", "SER": "src/z80/serde.rs",
      "FLV": "src/z80/flavours.rs", "DBG": "src/cpu/debug.rs", "REG": "src/cpu/registers.rs", "HOST": "src/host.rs", "MAC": "src/macros.rs", "LIB": "src/lib.rs",
      "OPC": "src/z80/opcodes.rs", "DIS": "src/disasm.rs", "ZMAC": "src/z80/macros.rs", "PARSE": "src/cpu/parse.rs", "FLG": "src/cpu/flags.rs", "ZDBG": "src/z80/debug.rs"}
exec(open(a[0]).read(), ns)
todo = [t for t in ns["TRIALS"] if len(a) == 1 or t[0] in a[1:]]
lock = threading.Lock()
def sh(cmd, cwd, timeout=900, env=None):
    try:
        r = subprocess.run(["timeout", str(timeout), "bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=dict(os.environ, **(env or {})))
        return r.returncode, r.stdout
    except Exception as e: return 99, str(e)
def run(k):
    d = f"{prefix}{k}"
    os.makedirs(d + "/harness", exist_ok=True); os.makedirs(d + "/replays", exist_ok=True)
    while True:
        with lock:
            if not todo: return
            tid, prop, edits = todo.pop(0)
        subprocess.run(["rsync", "-a", "--delete", "--checksum", "--exclude", "/target", "--exclude", "/.git", "/repo/", d + "/repo/"], check=True)
        subprocess.run(["rsync", "-a", "--delete", verif + "/harness/", d + "/harness/"], check=True)
        c = open(d + "/harness/Cargo.toml").read().replace('"/repo"', f'"{d}/repo"')
        open(d + "/harness/Cargo.toml", "w").write(c)
        subprocess.run(["rsync", "-a", "--delete", verif + "/probe/", d + "/probe/"], check=True); shutil.copy(verif + "/known_findings.txt", d)
        c = open(d + "/probe/Cargo.toml").read().replace('"/repo"', f'"{d}/repo"'); open(d + "/probe/Cargo.toml", "w").write(c)
        bad = None
        for f, old, new in edits:
            p = f"{d}/repo/{f}"; s = open(p).read()
            if s.count(old) != 1: bad = f"BADEDIT {f} {s.count(old)}x {old[:50]!r}"; break
            open(p, "w").write(s.replace(old, new))
        if bad: print(tid, prop, bad, flush=True); continue
        rc, o = sh(f"cargo test --offline --quiet --features std,serde --target-dir {d}/chk --lib 2>&1 | tail -30", d + "/repo", 600)
        tests = "tests-pass" if "test result: ok" in o else "tests-FAIL " + ("(no build)" if "error" in o else "")
        if "(no build)" in tests: print(tid, prop, "NOBUILD", o[-600:], flush=True); continue
        rc, o = sh(f"cargo build --release --offline --quiet --target-dir {d}/target", d + "/harness")
        if rc: print(tid, prop, tests, "HARNESS DOES NOT BUILD", o[-500:], flush=True); continue
        env = {"VERIF_SEED": "1", "Z80EMU_SRC": d + "/repo/src"}
        rc, o = sh(f"{d}/target/release/harness {prop} quick", d, 900, env)
        caught = rc == 1 and f"VIOLATION property={prop}" in o
        line = f"{tid} {prop} {tests} {'caught' if caught else 'MISSED rc=%d' % rc}"
        if not caught:
            other = []
            for i in range(1, 26):
                p = f"C{i:02}"
                if p == prop: continue
                rc, o = sh(f"{d}/target/release/harness {p} quick", d, 900, dict(env, VERIF_SCALE="0.3"))
                if rc: other.append(p if rc == 1 else f"{p}?{rc}")
            line += " others: " + ",".join(other)
        print(line, flush=True)
ts = [threading.Thread(target=run, args=(k,)) for k in range(lanes)]
[t.start() for t in ts]; [t.join() for t in ts]
