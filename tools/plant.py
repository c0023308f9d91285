#!/usr/bin/env python3
"""plant.py FILE.py [ID...]: makes, validates and keeps planted bugs.

FILE.py defines PLANTS: a list of dicts with id, property, edits [(file, old, new)], needs, breaks and
either main (Rust demo) with deps, or demo (a shell script)."""
import json, os, shutil, subprocess, sys

SCRATCH = os.environ.get("PLANT_SCRATCH", "/tmp/scratch/repo")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
DEMO = '''#!/bin/bash
# exit 0: the property holds on this demonstration's input; otherwise it is broken. Runs in the root of the repository.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
sed "s#REPOPATH#$PWD/lib/sia/rust#g" "$here/main.rs" > "$work/src/main.rs"
[ -f Cargo.lock ] && cp Cargo.lock "$work/"
cat > "$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[profile.dev]
opt-level = 1
[dependencies]
DEPS
END
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" REPO="$PWD"
(cd "$work" && cargo build --offline --quiet) > "$work/log" 2>&1 || { cat "$work/log"; exit 3; }
mkdir "$work/scratch"
cd "$work/scratch" && timeout 200 "$work/target/debug/demo" > "$work/out" 2>&1
rc=$?
tail -c 2000 "$work/out" | grep -a -v '^\\(features\\|watermark\\|bytes\\)' | tail -5
exit $rc
'''
LIBS = ["utils", "encoding", "embedding", "signature", "zernike", "image-features", "three-bit-quantization", "watermarking", "feature", "moments"]

def sh(cmd, cwd=SCRATCH, timeout=1200):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)

def sync():
    os.makedirs(os.path.dirname(SCRATCH), exist_ok=True)
    if not os.path.isdir(SCRATCH):
        sh(f"cp -a /repo {SCRATCH}", cwd="/")
    sh("git fetch -q /repo main && git checkout -q -f FETCH_HEAD")

def tests():
    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8")
    failed = [l for l in r.stdout.splitlines() if "... FAILED" in l]
    sh("git checkout -q -- .; rm -f lib/sia/rust/watermarking/tests/peppers_watermarked.png")
    return r.returncode == 0 and not failed, failed or r.stderr[-600:]

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    sync()
    for p in ns["PLANTS"]:
        if only and p["id"] not in only: continue
        d = f"/verif/seeded/{p['id']}"
        os.makedirs(d, exist_ok=True)
        sh("git checkout -q -- .")
        for f, old, new in p["edits"]:
            path = f"{SCRATCH}/{f}"
            s = open(path).read()
            assert s.count(old) == 1, (p["id"], f, old, s.count(old))
            open(path, "w").write(s.replace(old, new))
        diff = sh("git diff").stdout
        open(f"{d}/patch.diff", "w").write(diff)
        if "main" in p:
            deps = []
            for x in p["deps"]:
                if "=" in x: deps.append(x)
                else: deps.append(f'{x} = {{ path = "$PWD/lib/sia/rust/{x}" }}')
            open(f"{d}/demo.sh", "w").write(DEMO.replace("DEPS", "\n".join(deps)))
            open(f"{d}/main.rs", "w").write(p["main"].strip() + "\n")
        else:
            open(f"{d}/demo.sh", "w").write(p["demo"].strip() + "\n")
            for n, t in p.get("files", {}).items():
                open(f"{d}/{n}", "w").write(t)
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        sh("git checkout -q -- .")
        # validate
        clean = sh(f"bash {d}/demo.sh")
        if clean.returncode != 0:
            print(p["id"], "BAD: demo fails on the clean tree", clean.returncode, clean.stdout[-800:], clean.stderr[-300:]); continue
        sh(f"git apply {d}/patch.diff")
        broken = sh(f"bash {d}/demo.sh")
        if broken.returncode in (0, 3):
            print(p["id"], "BAD: demo with patch gives", broken.returncode, broken.stdout[-800:]); sh("git checkout -q -- ."); continue
        ok, failed = tests()
        if not ok:
            print(p["id"], "BAD: tests fail", failed); sh("git checkout -q -- ."); continue
        print(p["id"], "ok:", broken.returncode, broken.stdout.strip()[-200:].replace("\n", " | "), flush=True)

main()
