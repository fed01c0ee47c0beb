#!/usr/bin/env python3
"""Usage: tryrefac.py SPEC.py [-p C01,C02] [ID...]: applies each behaviour-preserving edit of the spec in a
scratch clone of /repo, confirms that the tests pass, runs all checks (or those named) and prints what
they report; they should stay quiet.  A spec calls refac(id, [(file, old, new), ...])."""
import os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
specs = []
def refac(id, edits):
    specs.append((id, edits))
args = sys.argv[1:]
props = []
if "-p" in args:
    i = args.index("-p"); props = args[i + 1].split(","); del args[i:i + 2]
exec(open(args[0]).read())
want = args[1:]
def one(x):
    id, edits = x
    w = "/tmp/refac-" + id
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    if os.path.exists("/repo/Cargo.lock"):
        shutil.copy("/repo/Cargo.lock", w)
    try:
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) == 0 or (s.count(old) > 1 and not old.startswith("\n")):
                return id, "EDIT MATCHES %d in %s: %s" % (s.count(old), f, old[:60])
            open(p, "w").write(s.replace(old, new))
        t = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; RUST_BACKTRACE=0 RUSTFLAGS=-Awarnings CARGO_TARGET_DIR=%s/.t cargo test -q --offline --all-features" % w], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if t.returncode:
            return id, "TESTS FAIL\n" + t.stdout[-1500:]
        env = dict(os.environ, YV_REPO=w, YV_WORK=w + "/.w", YV_EVIDENCE=w + "/.e")
        r = subprocess.run(["python3", "/verif/check", "all"] + props, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return id, "quiet"
        seen, out = set(), []
        for l in r.stdout.splitlines():
            if ": held:" in l or l.startswith("VIOLATION") or not l.strip():
                continue
            k = l.split(": ", 1)[-1]
            if k in seen: continue
            seen.add(k)
            out.append(l[:230])
        return id, "ALARM (%d)\n    " % len(out) + "\n    ".join(out[:3] + (out[-3:] if len(out) > 3 else []))
    finally:
        shutil.rmtree(w, ignore_errors=True)
with ThreadPoolExecutor(6) as ex:
    for id, m in ex.map(one, [s for s in specs if not want or any(s[0].startswith(a) for a in want)]):
        print("%-26s %s" % (id, m), flush=True)
