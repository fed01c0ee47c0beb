#!/usr/bin/env python3
"""Usage: trybugs.py [--all] [ID...]: runs the check of each planted bug's property (with --all: every
check) against a scratch clone of /repo with the bug applied; several at a time."""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
args = sys.argv[1:]
allc = "--all" in args
args = [a for a in args if a != "--all"]
ids = [i for i in sorted(os.listdir(V + "/seeded")) if not args or any(i.startswith(a) for a in args)]
have = sorted(set(re.findall(r'"(C\d\d)":', open(V + "/check").read())))
def one(i):
    w = "/tmp/bug-" + i
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    if os.path.exists("/repo/Cargo.lock"):
        shutil.copy("/repo/Cargo.lock", w)
    p = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
    r = subprocess.run(["git", "apply", "%s/seeded/%s/patch.diff" % (V, i)], cwd=w)
    out = []
    if r.returncode:
        out.append("PATCH DOES NOT APPLY")
    else:
        for c in (have if allc else [p]):
            if c not in have:
                out.append("%s no check" % c); continue
            env = dict(os.environ, YV_REPO=w, YV_WORK=w + "/.w", YV_EVIDENCE=w + "/.e")
            r = subprocess.run(["python3", V + "/check", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0 and allc and c != p:
                continue
            l = r.stdout.strip().splitlines()
            out.append("%s rc=%d %s" % (c, r.returncode, "" if r.returncode == 0 else (l[0] if l else "")[:230]))
    shutil.rmtree(w, ignore_errors=True)
    return i, p, out
with ThreadPoolExecutor(7) as ex:
    for i, p, out in ex.map(one, ids):
        bad = not any(o.startswith(p + " rc=1") for o in out)
        print("%s %-28s %s" % ("MISSED" if bad else "caught", i, " ;; ".join(out)), flush=True)
