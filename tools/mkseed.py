#!/usr/bin/env python3
"""Usage: mkseed.py SPEC.py [ID...]: builds planted bugs under /verif/seeded from the specs, after
confirming each in a scratch copy of /repo.  A spec calls
seed(id, prop, [(file, old, new), ...], demo_rs, needs, breaks)."""
import json, os, shutil, subprocess, sys
V = "/verif/seeded"
W = "/tmp/seedwork"
specs = []
def seed(id, prop, edits, demo, needs, breaks):
    specs.append((id, prop, edits, demo, needs, breaks))
def sh(c, cwd):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; unset CARGO_TARGET_DIR; " + c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
DEMO = '''#!/bin/bash
# Builds the program beside this file against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/" 2>/dev/null
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
yason = { path = "$repo", features = ["serde"] }
serde_json = { version = "1.0.79", features = ["arbitrary_precision"] }
serde = "1.0.136"
bincode = "1.3.3"
decimal-rs = "0.1.34"
[workspace]
EOF
cd "$t" && CARGO_TARGET_DIR="$t/target" RUSTFLAGS=-Awarnings timeout 250 cargo run --offline -q
'''
# For misuse that must not compile: the demo is a pair (a legal program, a program that must be rejected).
DEMO2 = DEMO.split('cp "$here/demo.rs"')[0].replace("runs it", "checks that the misuse beside it is rejected") + 'cp "$repo/Cargo.lock" "$t/" 2>/dev/null' + DEMO.split('"$t/" 2>/dev/null')[1].split("cd \"$t\"")[0] + '''
export CARGO_TARGET_DIR="$t/target" RUSTFLAGS=-Awarnings
cd "$t"
cp "$here/legal.rs" src/main.rs
timeout 200 cargo check --offline -q || exit 2
cp "$here/misuse.rs" src/main.rs
if timeout 200 cargo check --offline -q 2>"$t/err"; then
  echo "the misuse compiles"
  exit 1
fi
exit 0
'''
exec(open(sys.argv[1]).read())
want = sys.argv[2:]
for id, prop, edits, demo, needs, breaks in specs:
    if want and id not in want:
        continue
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    if os.path.exists("/repo/Cargo.lock"):
        shutil.copy("/repo/Cargo.lock", W)
    ok = True
    for f, old, new in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            print(id, "EDIT MATCHES", n, "in", f); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok:
        continue
    d = os.path.join(V, id)
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "diff"], cwd=W, stdout=subprocess.PIPE, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO2 if isinstance(demo, tuple) else DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if isinstance(demo, tuple):
        open(os.path.join(d, "legal.rs"), "w").write(demo[0])
        open(os.path.join(d, "misuse.rs"), "w").write(demo[1])
    else:
        open(os.path.join(d, "demo.rs"), "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    t = sh("RUST_BACKTRACE=0 RUSTFLAGS=-Awarnings CARGO_TARGET_DIR=/tmp/seedtgt cargo test --offline --all-features", W)
    if t.returncode:
        print(id, "TESTS FAIL\n", t.stdout[-900:]); continue
    a = sh("bash %s/demo.sh" % d, "/repo")
    b = sh("bash %s/demo.sh" % d, W)
    good = a.returncode == 0 and b.returncode not in (0, 124)
    print(id, "OK" if good else "BAD", a.returncode, b.returncode, "" if good else a.stdout[-600:] + "\n----\n" + b.stdout[-600:], flush=True)
    if good: print("   ", b.stdout.strip().splitlines()[0][:150] if b.stdout.strip() else "")
shutil.rmtree(W, ignore_errors=True)
