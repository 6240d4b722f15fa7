#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for every planted bug listed in seed_bugs.py.

usage: seed.py [ID...]   (a clean scratch copy of /repo is expected in $SEED_REPO, default /tmp/r1)
Each bug: dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=<rust main>, deps=[...]).
"""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
repo = os.environ.get("SEED_REPO", "/tmp/r1")
ns = {}
exec(open(os.path.join(here, "seed_bugs.py")).read(), ns)
util = open(os.path.join(here, "seed_util.rs")).read()
out = os.path.join(os.path.dirname(here), "seeded")

DEMO = r'''#!/bin/bash
# cwd: the z80emu repository. Builds the demonstration next to it in a scratch folder and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf -- "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
z80emu = { path = "$repo" }
serde_json = "1"
bincode = "1.3"
EOF
cd "$tmp" || exit 99
CARGO_TARGET_DIR="$tmp/target" timeout 250 cargo run --offline --quiet
'''

def git(*a):
    return subprocess.run(["git", "-C", repo, *a], check=True, capture_output=True, text=True).stdout

only = set(sys.argv[1:])
ids = set()
for b in ns["BUGS"]:
    assert b["id"] not in ids, b["id"]
    ids.add(b["id"])
    if only and b["id"] not in only:
        continue
    git("checkout", "--", ".")
    for f, old, new in b["edits"]:
        p = os.path.join(repo, f)
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = git("diff")
    assert diff, b["id"]
    git("checkout", "--", ".")
    d = os.path.join(out, b["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("cargo run --offline --quiet", b["run"]))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "main.rs"), "w").write(
        "//! Demonstration for planted bug %s: exits 0 when the behaviour is right.\n%s\nfn main() {\n%s\n}\n"
        % (b["id"], util, "\n".join("    " + l if l else l for l in b["demo"].strip("\n").split("\n"))))
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", b["id"])
