#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from an edit and a demonstration, and confirms it in a scratch copy.
usage: mkseed.py FILE.py   (FILE.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, what)])"""
import json, os, shutil, subprocess, sys
S = "/tmp/vp-seedrepo"
SH = """#!/bin/bash
# run with cwd /repo after the build: exit 0 on the unchanged tree, nonzero with the change
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo=$PWD
d=$(mktemp -d /tmp/vp-demo-XXXXXX)
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "vp-demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
vatsim-parser = { path = "$repo" }
geo = "0.33"
serde_json = "1"
T
cd "$d" || exit 3
CARGO_TARGET_DIR="$repo/target" cargo build --offline -q 2>"$d/log" || { cat "$d/log"; exit 3; }
VP_SCRATCH="$d" timeout 120 "$repo/target/debug/vp-demo"
rc=$?
[ -d "$d" ] && find "$d" -depth -delete
exit $rc
"""
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    if os.path.isdir(S): shutil.rmtree(S)
    sh("cp -a /repo %s" % S)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["pass"]) if 0 else None
    for s in ns["SEEDS"]:
        if only and s["id"] not in only: continue
        sh("git checkout -q -- .", cwd=S)
        for f, old, new in s["edits"]:
            p = os.path.join(S, f); t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        d = "/verif/seeded/" + s["id"]
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=S).stdout)
        open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(s["demo"])
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]), open(d + "/meta.json", "w"), indent=1)
        t = sh("PATH=/root/.cargo/bin:$PATH; . /opt/vp/env.sh; cargo test --offline --locked 2>&1 | grep -E '^test result|FAILED|^error|failed' -A5 | head -40", cwd=S)
        ok = "0 failed" in t.stdout and "FAILED" not in t.stdout and "error" not in t.stdout
        a = sh("bash %s/demo.sh" % d, cwd=S)
        sh("git checkout -q -- .", cwd=S)
        b = sh("bash %s/demo.sh" % d, cwd=S)
        good = ok and a.returncode not in (0, 3) and b.returncode == 0
        print(s["id"], "GOOD" if good else "BAD", "tests", ok, "with", a.returncode, "without", b.returncode, flush=True)
        if not good:
            print(t.stdout[-1500:], "\n--with--", a.stdout[-1500:], "\n--without--", b.stdout[-1500:])
    shutil.rmtree(S)
main()
