#!/usr/bin/env python3
"""Regenerates /verif/seeded from the definitions below: patch.diff against /repo's HEAD, demo, meta.json.
usage: seeds.py [id...]   (no check reads /verif/seeded)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = V + "/tools/seedkit"
REC = "gearley-recognizer/src/recognizer.rs"
BUGS = {}

def bug(id, prop, file, old, new, needs, breaks, main, kind="kit", more=(), extra=""):
    """extra: further dependency lines of the demo (kit only)."""
    BUGS[id] = dict(prop=prop, edits=[(file, old, new), *more], needs=needs, breaks=breaks, main=main, kind=kind, extra=extra)

for _f in ("seed_defs.py", "seed_defs2.py", "seed_defs3.py", "seed_defs4.py", "seed_defs5.py", "seed_defs6.py", "seed_defs7.py", "seed_defs8.py", "seed_defs9.py", "seed_defs10.py", "seed_defs11.py"):
    exec(open(f"{V}/tools/{_f}").read())

RUSTC = """#!/bin/bash
# Compiles main.rs, which includes the file of /repo under test, in a scratch folder and runs it.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
rustc --edition 2021 -C debug-assertions -A warnings -o "$W/demo" "$D/main.rs" 2>"$W/log" || { cat "$W/log" >&2; rm -r -f "$W"; exit 98; }
timeout 60 "$W/demo"
R=$?
rm -r -f "$W"
exit $R
"""

def make(id, b):
    d = f"{V}/seeded/{id}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="seed")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r", "HEAD"])
        for f, old, new in b["edits"]:
            p = f"{w}/r/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True))
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w, ignore_errors=True)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/main.rs", "w").write(b["main"])
    if b["kind"] == "rustc":
        open(d + "/demo.sh", "w").write(RUSTC)
    elif b["kind"] == "kit":
        shutil.copy(KIT + "/demo.sh", d)
        toml = open(KIT + "/Cargo.toml").read()
        open(d + "/Cargo.toml", "w").write(toml.replace("\n[profile", b["extra"] + "\n[profile", 1))
        if os.path.exists(KIT + "/Cargo.lock"):
            shutil.copy(KIT + "/Cargo.lock", d)
        for k in ["kit", "simcore"]:
            shutil.copytree(f"{KIT}/{k}", f"{d}/{k}")
        shutil.copy(V + "/sim/sim-parse/src/gram.rs", d + "/kit/src/gram.rs")
        for k in ["wrap", "standins"]:
            shutil.copytree(f"{V}/{k}", f"{d}/{k}", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    else:
        for name, text in b["kind"].items():
            os.makedirs(os.path.dirname(f"{d}/{name}") or d, exist_ok=True)
            open(f"{d}/{name}", "w").write(text)
        shutil.copy(KIT + "/demo.sh", d)
    os.chmod(d + "/demo.sh", 0o755)

for id in sys.argv[1:] or BUGS:
    make(id, BUGS[id])
    print(id)
