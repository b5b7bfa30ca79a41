#!/usr/bin/env python3
"""plant.py SPECFILE: SPECFILE is a python file defining id, prop, needs, breaks, edits=[(file, old, new)], main (rust demo) or demo (bash)"""
import os, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# exit 0 if the behaviour is right
set -u
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-nightly-2026-07-07-x86_64-unknown-linux-gnu} CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
T="$(mktemp -d)"
trap 'find "$T" -delete' EXIT
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock"
cat >"$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
@DEPS@
EOF
cd "$T" && timeout 280 cargo run --offline -q
'''
g = {"deps": ['rustsat = { path = "$R", features = ["_test"] }'], "files": {}}
exec(open(sys.argv[1]).read(), g)
d = os.path.join(V, "seeded", g["id"])
os.makedirs(d, exist_ok=True)
for f, old, new in g["edits"]:
    p = os.path.join("/repo", f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE, text=True).stdout
subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
open(os.path.join(d, "patch.diff"), "w").write(diff)
if "main" in g:
    open(os.path.join(d, "main.rs"), "w").write(g["main"].lstrip())
    g["demo"] = DEMO.replace("@DEPS@", "\n".join(g["deps"]))
for n, t in g["files"].items():
    open(os.path.join(d, n), "w").write(t)
open(os.path.join(d, "demo.sh"), "w").write(g["demo"])
os.chmod(os.path.join(d, "demo.sh"), 0o755)
json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
