"""C25: misuse of builders and borrowed documents does not compile."""
import json
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
import yv

PRE = "#![allow(warnings)]\nuse yason::*;\n"


def build():
    """The crate's metadata as its users' compiler sees it."""
    w = os.path.join(yv.WORK, "wtgt")
    env = {k: v for k, v in os.environ.items() if k not in ("RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "RUSTC_WORKSPACE_WRAPPER")}
    env.update(CARGO_TARGET_DIR=w, CARGO_INCREMENTAL="0", RUSTFLAGS="-Awarnings", CARGO_TERM_COLOR="never")
    src = os.path.join(yv.REPO, "src")
    cmd = "[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh; export CARGO_TARGET_DIR=%s RUSTFLAGS=-Awarnings CARGO_INCREMENTAL=0; unset RUSTC_WRAPPER; cargo clean -q -p yason --offline >/dev/null 2>&1; cargo check --lib --all-features --offline --message-format=json" % w
    r = subprocess.run(["bash", "-c", cmd], cwd=yv.REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    meta = None
    for l in r.stdout.splitlines():
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "yason" and os.path.realpath(m["target"]["src_path"]).startswith(os.path.realpath(src)):
                for f in m["filenames"]:
                    if f.endswith(".rmeta"):
                        meta = f
    return meta, r.stderr[-1500:]


def compile_one(meta, d, name, text):
    f = os.path.join(d, name + ".rs")
    open(f, "w").write(text)
    deps = os.path.join(os.path.dirname(meta))
    if os.path.basename(deps) != "deps":
        deps = os.path.join(deps, "deps")
    cmd = "[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh; unset RUSTC_WRAPPER; rustc --edition 2021 --crate-type lib --crate-name w --emit=metadata -o %s.rmeta --error-format=json -L dependency=%s --extern yason=%s %s" % (f, deps, meta, f)
    r = subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=d)
    codes, msgs = set(), []
    for l in r.stderr.splitlines():
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("level") == "error" and not m["message"].startswith("aborting"):
                codes.add((m.get("code") or {}).get("code") or "none")
                msgs.append(m["message"])
    return r.returncode, codes, msgs


def fn(i, sig, body):
    # free lifetimes are not needed: every witness borrows what it is given
    return "pub fn w%d%s { %s }\n" % (i, sig, body)


def witnesses(R):
    import witnesses as ws
    meta, err = build()
    if meta is None:
        R.bad("build", "the crate could not be compiled for the witnesses: " + err)
        return
    os.makedirs(yv.WORK, exist_ok=True)
    d = tempfile.mkdtemp(prefix="wit-", dir=yv.WORK)
    try:
        W = ws.W
        good = [fn(i, x[2], x[3].replace("@@", x[5])) for i, x in enumerate(W)]
        with ThreadPoolExecutor(8) as ex:
            all_ok = ex.submit(compile_one, meta, d, "twins", PRE + "".join(good))
            bads = list(ex.map(lambda i: compile_one(meta, d, "bad%d" % i, PRE + fn(i, W[i][2], W[i][3].replace("@@", W[i][4]))), range(len(W))))
            rc, _, _ = all_ok.result()
            twins = [(0, (), ())] * len(W) if rc == 0 else list(ex.map(lambda i: compile_one(meta, d, "good%d" % i, PRE + good[i]), range(len(W))))
        for i, (name, codes, _, _, bad, _) in enumerate(W):
            if twins[i][0]:
                R.bad("twin:" + name, "undecided: the legal twin of the witness %s does not compile: %s" % (name, "; ".join(twins[i][2])[:300]))
                continue
            rc, got, msgs = bads[i]
            if rc == 0:
                R.bad("compiles:" + name, "the misuse %s compiles: `%s`" % (name, bad))
            elif not got or not got <= set(codes):
                R.bad("other:" + name, "undecided: the misuse %s fails with %s (%s), not with %s" % (name, sorted(got), "; ".join(msgs)[:200], " or ".join(codes)))
            else:
                R.good("misuse rejected by the compiler while its legal twin compiles", 1, "%s: %s" % (name, ",".join(sorted(got))))
        R.floor("compile-fail witnesses", len(W), 150)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- regions in the signatures

class Regions:
    """Occurrences of regions in a type: (region, under a mutable borrow with that region, behind another reference)."""

    def __init__(self, F):
        self.adts = {a["path"]: a for a in F["adts"]}
        self.memo = {}

    def mutable_params(self, path):
        """The parameters of a local type at which it borrows mutably."""
        if path not in self.memo:
            self.memo[path] = set()
            a = self.adts.get(path)
            if a is not None:
                out = set()
                while True:
                    for f in a["fields"]:
                        for r, m, _ in self.of(f["rty"]):
                            if m:
                                out.add(r)
                    if out == self.memo[path]:
                        break
                    self.memo[path] = set(out)
        return self.memo[path]

    def of(self, t, behind=False, behind_shared=False):
        k, out = t["k"], []
        if k == "ref":
            out.append((t["r"], t["m"] and not behind_shared, behind))
            for x in t["args"]:
                out += self.of(x, True, behind_shared or not t["m"])
        elif k == "adt":
            mp = self.mutable_params(t["path"]) if t["local"] else set()
            names = self.adts[t["path"]]["params"] if t["path"] in self.adts else []
            for i, x in enumerate(t["args"]):
                if x["k"] == "region":
                    m = i < len(names) and any(r == "E:%s/%d" % (names[i], i) for r in mp)
                    out.append((x["r"], m and not behind_shared, behind))
                else:
                    out += self.of(x, behind, behind_shared)
        elif k == "alias" and not t["opaque"]:
            pass                        # associated types are judged where they are defined
        else:
            if "r" in t:
                out.append((t["r"], False, behind))
            for x in t.get("args", ()):
                out += self.of(x, behind, behind_shared)
        return out


def walk(t):
    yield t
    for x in t.get("args", ()):
        yield from walk(x)


def is_str_ref(t):
    return t["k"] == "ref" and t["args"][0] == {"k": "prim", "name": "str"}


def show(t):
    k = t["k"]
    if k == "region":
        return reg(t["r"])
    a = [show(x) for x in t.get("args", ())]
    if k == "ref":
        return "&%s %s%s" % (reg(t["r"]), "mut " if t["m"] else "", a[0])
    if k == "slice":
        return "[%s]" % a[0]
    if k == "tuple":
        return "(%s)" % ", ".join(a)
    n = t.get("path", t.get("name", k)).rsplit("::", 1)[-1]
    return n + ("<%s>" % ", ".join(a) if a else "")


def reg(r):
    return r[2:].split("/")[0] if r[:2] == "E:" else r if r == "'static" else "'_" if not r.rsplit("::", 1)[-1].startswith("'") else r.rsplit("::", 1)[-1].rstrip(")")


VIEW = ("::Yason", "::YasonBuf", "::Object", "::Array", "::ArrayIter", "::ObjectIter", "::KeyIter", "::ValueIter", "::Value", "::QueriedValue", "Builder")


def is_local_view(t):
    return t["k"] == "adt" and t["local"] and t["path"].endswith(VIEW)


def short(p):
    return p


def signatures(F, R):
    G = Regions(F)
    exported = {a["path"] for a in F["adts"] if a["exported"]}
    n = 0
    for r in F["roots"]:
        owner = r.get("rself")
        local_self = owner is not None and any(x["k"] == "adt" and x["path"] in exported for x in walk(owner))
        if not (r["exported"] or r["reachable"] or "trait" in r and local_self):
            continue
        n += 1
        R.analysed.add(r["path"])
        out = G.of(r["rout"])
        ins = [o for t in r["rin"] for o in G.of(t)]
        borrows = [t for t in r["rin"] if not is_str_ref(t) and (G.of(t) or any(is_local_view(x) for x in walk(t)))]
        where = "%s: %s" % (r["path"], show(r["rout"]))
        for q, m, inner in out:
            if q == "'static":
                continue
            occ = [o for o in ins if o[0] == q]
            if not occ:
                if borrows:
                    R.bad("free:" + r["path"], "the lifetime %s of the result is tied to no argument, so the result may outlive what it borrows from: %s" % (reg(q), where))
                else:
                    R.good("a free lifetime only where nothing is borrowed")
                continue
            mut = [o for o in occ if o[1]]
            shared = [o for o in occ if not o[1]]
            if inner:
                pass            # the outer borrow keeps it exclusive
            elif m and not any(not o[2] for o in mut):
                R.bad("exclusive:" + r["path"], "the result borrows mutably for %s, but the arguments are not borrowed that long, so what it borrows from stays usable: %s" % (reg(q), where))
            elif not m and not shared and not any(not o[2] for o in mut):
                R.bad("exclusive:" + r["path"], "the result borrows for %s from what an argument only lends mutably for a shorter time: %s" % (reg(q), where))
            else:
                R.good("the result's lifetimes are those its arguments are borrowed for")
        for x in walk(r["rout"]):
            if x["k"] == "ref" and x["r"] == "'static" and (not is_str_ref(x) or borrows) and not (is_str_ref(x) and "DataType" in show(r["rin"][0]) if r["rin"] else False):
                R.bad("static:" + r["path"], "the result is borrowed for 'static: " + where)
            if x["k"] == "adt" and x["local"] and any(y["k"] == "region" and y["r"] == "'static" for y in x.get("args", ())):
                R.bad("static:" + r["path"], "the result is borrowed for 'static: " + where)
            if not r["unsafe"] and x["k"] in ("ref", "ptr") and x["m"]:
                y = x["args"][0]
                if y["k"] == "slice" or y["k"] == "adt" and (y["path"].endswith(("::Yason",)) or y["path"].endswith("vec::Vec") and y["args"][0] == {"k": "prim", "name": "u8"}):
                    R.bad("mutable:" + r["path"], "safe code obtains mutable access to bytes: " + where)
        R.good("signatures without 'static borrows and mutable access to bytes")
    R.floor("signatures users can call", n, 150)
    for a in F["assocs"]:
        for x in walk(a["rty"]):
            if (x["k"] == "ref" and x["r"] == "'static" and not is_str_ref(x)) or x["k"] == "adt" and x["local"] and any(y.get("r") == "'static" for y in x.get("args", ())):
                R.bad("static:" + a["path"], "an associated type is borrowed for 'static: %s" % show(a["rty"]))
    k = 0
    for a in F["adts"]:
        if not a["exported"]:
            continue
        k += 1
        for p, v in zip(a["params"], a["variances"]):
            if p.startswith("'") and v not in ("+", "o"):
                R.bad("variance:%s" % a["path"], "the lifetime %s of %s is not covariant or invariant, so a borrow can be extended" % (p, a["path"]))
        if not a["is_enum"]:
            for f in a["fields"]:
                if f["public"]:
                    R.bad("field:%s.%s" % (a["path"], f["name"]), "the field %s of %s is public" % (f["name"], a["path"]))
        R.good("types with private fields whose lifetimes cannot be extended")
    R.floor("exported types", k, 15)


def C25(F, R):
    R.rules.append("compile-fail witnesses compiled against the current crate, each with a legal twin that must compile")
    R.rules.append("every signature users can call ties the lifetimes of its result to borrows of its arguments, exclusively where the result borrows mutably; no 'static views, no mutable access to document bytes, no public fields, no lifetimes that can be extended")
    R.assumptions += ["rustc's borrow checker and privacy rules", "the witnesses stand for every use of the same kind: one misuse per API function and per kind of misuse"]
    signatures(F, R)
    witnesses(R)
