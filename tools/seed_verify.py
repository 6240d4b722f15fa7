#!/usr/bin/env python3
"""Verifies planted bugs: builds, passes the stable tests, demo passes without / fails with the patch, which checks report it.

usage: seed_verify.py [--lanes N] [--no-checks] [--only-own] [ID...]
Works in scratch copies /tmp/lane<k>/{repo,harness}; results go to /tmp/seed_results.json.
"""
import json, os, subprocess, sys, threading, queue, re, shutil, time
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
lanes = 3
if "--lanes" in args:
    i = args.index("--lanes"); lanes = int(args[i+1]); del args[i:i+2]
no_checks = "--no-checks" in args
only_own = "--only-own" in args
no_base = "--no-base" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(verif + "/seeded"))
stable = json.load(open("/opt/vp/BASELINE.json"))
res_path = "/tmp/seed_results.json"
results = json.load(open(res_path)) if os.path.exists(res_path) else {}
lock = threading.Lock()
props = [json.loads(l)["id"] for l in open(verif + "/properties.jsonl")]

def sh(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(["bash", "-c", cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as x:
        return 124, "TIMEOUT"

def save():
    json.dump(results, open(res_path, "w"), indent=1)

def lane_setup(k):
    d = f"/tmp/lane{k}"
    os.makedirs(d, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "/target", "--exclude", "/.git", "/repo/", d + "/repo/"], check=True)
    if not os.path.exists(d + "/repo/.git"):
        sh("git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm x", d + "/repo")
    else:
        sh("git add -A && git -c user.email=a@b -c user.name=x commit -qm x", d + "/repo")
    os.makedirs(d + "/harness", exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", verif + "/harness/", d + "/harness/"], check=True)
    c = open(d + "/harness/Cargo.toml").read().replace('"/repo"', f'"{d}/repo"').replace('"../../repo"', f'"{d}/repo"')
    assert d in c
    open(d + "/harness/Cargo.toml", "w").write(c)
    subprocess.run(["rsync", "-a", "--delete", verif + "/probe/", d + "/probe/"], check=True); shutil.copy(verif + "/known_findings.txt", d)
    c = open(d + "/probe/Cargo.toml").read().replace('"/repo"', f'"{d}/repo"'); open(d + "/probe/Cargo.toml", "w").write(c)
    return d

def run(k, q):
    d = lane_setup(k)
    repo = d + "/repo"
    while True:
        try: b = q.get_nowait()
        except queue.Empty: return
        t0 = time.time()
        s = f"{verif}/seeded/{b}"
        r = {"property": json.load(open(s + "/meta.json"))["property"]}
        sh("git checkout -q -- .", repo)
        if no_base: r["demo_clean"] = 0
        else: r["demo_clean"], o = sh(f"bash {s}/demo.sh", repo, 300)
        if r["demo_clean"]: r["demo_clean_out"] = o[-1500:]
        rc, o = sh(f"git apply {s}/patch.diff", repo)
        r["apply"] = rc
        r["build"], o = sh("cargo build -p z80emu --no-default-features --offline && cargo build -p ral1243 --no-default-features --offline", repo)
        if r["build"]: r["build_out"] = o[-1500:]
        rc, o = sh("timeout 600 cargo test --workspace --exclude z80emu-embedded-example --no-fail-fast --offline -- --test-threads 4", repo)
        r["test_rc"] = rc
        r["failed"] = sorted(set(re.findall(r"^test (.*) \.\.\. FAILED", o, re.M)))
        if rc and not r["failed"]: r["test_out"] = o[-1500:]
        r["demo_bug"], o = sh(f"bash {s}/demo.sh", repo, 300)
        r["demo_bug_out"] = o[-400:]
        r["ok"] = r["demo_clean"] == 0 and r["apply"] == 0 and r["build"] == 0 and rc == 0 and r["demo_bug"] != 0
        r["caught"] = results.get(b, {}).get("caught")
        if not no_checks and r["build"] == 0:
            rc, o = sh(f"cargo build --release --offline --quiet --target-dir {d}/target", d + "/harness", 900)
            r["harness"] = rc
            if rc: r["harness_out"] = o[-1500:]
            else:
                os.makedirs(d + "/replays", exist_ok=True)
                r["caught"] = []
                r["times"] = {}
                for p in ([r["property"]] if only_own else props):
                    t1 = time.time()
                    rc, o = sh(f"{d}/target/release/harness {p} quick", d, 900, {"VERIF_SEED": "1", "VERIF_SCALE": os.environ.get("VERIF_SCALE", "1"), "Z80EMU_SRC": d + "/repo/src"})
                    if rc == 1 and "VIOLATION property=%s" % p in o: r["caught"].append(p)
                    elif rc: r["caught"].append(p + "?%d" % rc)
                    if time.time() - t1 > 60: r["times"][p] = round(time.time() - t1)
        sh("git checkout -q -- .", repo)
        r["secs"] = round(time.time() - t0)
        with lock:
            results[b] = r; save()
            print(b, "OK" if r["ok"] else "BAD clean=%s build=%s test=%s %s bug=%s" % (r["demo_clean"], r["build"], r["test_rc"], r["failed"][:4], r["demo_bug"]), "caught:", r["caught"], r["secs"], flush=True)

q = queue.Queue()
for b in ids: q.put(b)
ts = [threading.Thread(target=run, args=(k, q)) for k in range(lanes)]
[t.start() for t in ts]; [t.join() for t in ts]
