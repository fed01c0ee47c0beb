"""C30: where the bytes of documents come from."""
from terms import *
from spec import *
from api import *
from check_query import groups_from
import os
import sys
import buildcut
import callgraph
import interp
import models
import par
from interp import Ptr, Sl, VecV, Sym, Adt, Arr, is_cond
from models import variant, payload_tid

Y = "yason::yason::Yason"
YB = "yason::yason::YasonBuf"
VIEWS = {"yason::yason::object::Object": 1, "yason::yason::array::Array": 2}
DOCS = {Y, YB} | set(VIEWS)


def contains(F, tid, want, memo):
    """Whether a value of the type holds or refers to one of the wanted types."""
    k = (tid, want)
    if k in memo:
        return memo[k]
    memo[k] = False
    x = F["types"][tid]
    r = False
    if x["k"] == "adt":
        if x.get("path") in want:
            r = True
        else:
            subs = [a for a in x.get("args") or [] if isinstance(a, int)]
            for v in x.get("variants") or []:
                subs += [f["t"] for f in v.get("f") or []]
            r = any(contains(F, s, want, memo) for s in subs)
    elif x["k"] in ("ref", "ptr", "slice", "array"):
        r = contains(F, x["e"], want, memo)
    elif x["k"] == "tuple":
        r = any(contains(F, s, want, memo) for s in x.get("es") or x.get("e") or [])
    memo[k] = r
    return r


def raw_holder(F, path):
    """Whether the type keeps the bytes of documents under its own control: a
    document, a view, an iterator or a builder."""
    return path in DOCS or (path or "").startswith("yason::builder::") or (path or "").startswith("yason::yason::") and path != "yason::yason::Value"


def roots_of(F):
    memo = {}
    docs = frozenset(DOCS)
    out = []
    for r in F["roots"]:
        if r["key"] not in F["fns"] or r["unsafe"]:
            continue
        if not (r["exported"] or r.get("trait")):
            continue
        outs = contains(F, r["output"], docs, memo)
        muts = [i for i in r["inputs"] if F["types"][i]["k"] == "ref" and F["types"][i].get("mut") and contains(F, i, frozenset([YB]), memo) and not (F["types"][F["types"][i]["e"]].get("path") or "").startswith("yason::builder")]
        strs = F["types"][r["inputs"][0]]["k"] == "ref" and F["types"][F["types"][r["inputs"][0]]["e"]].get("path") in (Y, YB) and "&str" in F["types"][r["output"]]["s"] if r["inputs"] else False
        if outs or muts or strs:
            out.append(r)
    return out


class Cut:
    """Calls of other safe public functions, which are judged on their own."""
    def __init__(self, F, keys, heads):
        self.F, self.keys, self.heads = F, keys, heads
        self.judge = None
        self.types = {}
        from check_json import JsonCut
        self.json = JsonCut()
        self.passed = []
        self.api = Api(F, frozenset())

    def __call__(self, E, st, callee, args, dest, target_, span):
        name = callee.get("path") or callee["decl"]
        seg = callee.get("name") or name.rsplit("::", 1)[-1]
        key = callee.get("key")
        if not st.frames:
            return None
        if key in self.heads or key in self.keys:
            b = E.fns[key]
            for i, a in enumerate(args):
                self.passed.append((st, a, b["locals"][i + 1], tuple(f.body["path"] for f in st.frames)))
            n = st.ncall
            st.ncall += 1
            self.api.touch(E, st, args, n)
            t = ("api", E.T[dest[3]]["s"], n)
            self.types[t] = dest[3]
            return E.finish_call(st, dest, target_, E.mk(t, dest[3]))
        if callee.get("kind") == "unresolved" and not callee.get("local"):
            t = ("unresolved", name, st.ncall) + tuple(E.snapshot(st, a) for a in args[:1])
            if seg in ("as_ref", "borrow", "deref"):
                t = ("unresolved", name, E.T[dest[3]]["s"]) + tuple(E.snapshot(st, a) for a in args[:1])
                self.types[t] = dest[3]
                return E.finish_call(st, dest, target_, E.mk(t, dest[3]))
        if seg in ("is_human_readable",):
            return E.finish_call(st, dest, target_, c_atom(("human",)))
        if seg == "custom" and "serde_core::" in callee["decl"]:
            return E.finish_call(st, dest, target_, Sym(("custom", st.ncall), dest[3]))
        if callee["decl"].startswith("serde_core::") and key not in E.fns:
            n = st.ncall
            st.ncall += 1
            return E.finish_call(st, dest, target_, E.mk(("serde", n), dest[3]))
        if not self.building and callee.get("local"):
            r = self.json.build(self.api, E, st, callee, args, dest, target_, span)
            if r is None and self.path:
                r = self.api(E, st, callee, args, dest, target_, span)
            return r
        if "serde_json" in name or name.startswith("core::fmt::") or name.startswith("alloc::fmt::") or name.startswith("decimal_rs::parse::"):
            return self.json(self.api, E, st, callee, args, dest, target_, span)
        return None


class Judge:
    def __init__(self, F, E, cut, body):
        self.F, self.E, self.cut, self.body = F, E, cut, body
        self.n = 0

    # ---- provenance of a region
    def type_path(self, term):
        """Types met on the way from an argument to the term; None if unknown."""
        E = self.E
        if not isinstance(term, tuple) or not term:
            return None
        if term in self.cut.types:
            return [self.cut.types[term]]
        h = term[0]
        if h == "arg" and len(term) == 2:
            return [self.body["locals"][term[1] + 1]]
        if h == "*":
            p = self.type_path(term[1])
            if p is None:
                return None
            t = E.T[p[-1]]
            return p + [t["e"]] if t["k"] in ("ref", "ptr") else p
        if h == "f":
            p = self.type_path(term[1])
            if p is None:
                return None
            var, i = (term[2], term[3]) if len(term) == 4 else (0, term[2])
            try:
                fs = E.fields(p[-1], var)
                return p + [fs[i]]
            except Exception:
                return None
        if h in ("snap", "ref") and len(term) == 2:
            return self.type_path(term[1])
        return None

    def trusted(self, term):
        p = self.type_path(term)
        if p is None:
            return None
        last = None
        for t in p:
            x = self.E.T[t]
            n = 0
            while x["k"] in ("ref", "ptr") and n < 4:
                x, n = self.E.T[x["e"]], n + 1
            if x["k"] == "adt" and x.get("local"):
                last = x["path"]
        return last is not None and raw_holder(self.F, last)

    def built(self, t):
        """Whether the term is (part of) the document a builder operation gave."""
        while isinstance(t, tuple) and t and t[0] in ("f", "*"):
            t = t[1]
        return isinstance(t, tuple) and len(t) == 2 and t[0] == "built"

    def region(self, st, r, off, ln):
        """None if the bytes are those of a document or encoded ones, else a text."""
        if r[0] == "place":
            v = self.E.read_cell(st, r[1], r[2])
            if isinstance(v, VecV):
                return self.vec(st, v, off, ln)
            return "bytes of %s" % (v,)
        if r[0] == "const":
            return None
        if r[0] == "vec":
            return self.vec(st, VecV(self.E.u8, off + ln, None, r[1], r[2]), off, ln)
        if r[0] == "sym":
            t = r[1]
            if isinstance(t, tuple) and t and t[0] == "doc":
                return self.region(st, t[1][1], ZERO, ZERO)
            if isinstance(t, tuple) and t and t[0] == "numtext":
                return "a number's text"
            k = self.trusted(t) or self.built(t) or (None if self.type_path(t) is None else False)
            if k is None:
                return "bytes of unknown origin (%s)" % show_region(r)
            return None if k else "bytes received from the caller"
        return "bytes of unknown origin (%s)" % show_region(r)

    def vec(self, st, v, off, ln):
        f = st.facts
        own = v.init is None
        if not own and self.region(st, v.init if isinstance(v.init, tuple) else ("?",), ZERO, ZERO) is None:
            own = True
        if not own:
            # what was there before must not be part of the document
            w = v.writes[0] if v.writes else None
            lo = None
            t = v.init[1] if v.init[0] == "sym" else None
            for a in (A(("len", t), 0, interp.ISIZE_MAX), A(("vlen", t), 0, interp.ISIZE_MAX)):
                if f.entails(c_ge(off - a)):
                    lo = a
            if lo is None and w is not None and w[0] == "w" and f.entails(c_ge(off - w[1])):
                lo = w[1]
            if lo is None and not any(w[0] == "trunc" and f.entails(c_ge(off - w[1])) for w in v.writes):
                return "bytes that were in the caller's buffer before"
        # the first byte decides what the document is
        for w in reversed(v.writes):
            if w[0] != "w":
                continue
            if f.entails(c_and(c_ge(off - w[1]), c_ge(w[1] + w[2] - off - 1))) or f.entails(c_and(c_eq(off - w[1]), c_eq(w[2] - ln))):
                d = w[3]
                if d[0] == "copy":
                    return self.region(st, d[1], d[2], ln)
                return None
        return None

    # ---- values
    def value(self, st, v, tid, d=0):
        """Texts of what is wrong with the documents in a value."""
        E = self.E
        t = E.T[tid] if tid is not None else None
        if d > 8 or v is None or t is None:
            return
        if t["k"] in ("ref", "ptr"):
            e = E.T[t["e"]]
            if isinstance(v, Sl):
                if e.get("path") == Y:
                    self.n += 1
                    yield self.region(st, v.region, v.off, v.len)
                return
            if isinstance(v, Sym):
                return
            if isinstance(v, Ptr):
                if v.cell[0] in ("el", "konst"):
                    return
                yield from self.value(st, E.read_cell(st, v.cell, v.path), t["e"], d + 1)
                return
            if isinstance(v, Adt) and len(v.f) == 1:
                yield from self.value(st, v.f[0], tid, d + 1)
            return
        if t["k"] == "adt":
            if isinstance(v, Sym):
                return
            if t.get("path") == YB:
                x = unwrap(v)
                self.n += 1
                if isinstance(x, VecV):
                    yield self.vec(st, x, ZERO, x.len) if not (x.init is not None and not x.writes) else self.region(st, x.init, ZERO, x.len)
                elif not isinstance(x, Sym):
                    yield "bytes of unknown origin (%r)" % (x,)
                return
            if isinstance(v, VecV):
                yield from self.elements(st, v, d)
                return
            if isinstance(v, Sl):
                # a wrapper around a document reference
                fs = E.fields(tid)
                if len(fs) == 1:
                    yield from self.value(st, v, fs[0], d + 1)
                return
            if isinstance(v, Adt):
                try:
                    fs = E.fields(v.tid, v.var)
                except Exception:
                    return
                for x, ft in zip(v.f, fs):
                    yield from self.value(st, x, ft, d + 1)
            return
        if t["k"] == "tuple" and isinstance(v, Adt):
            for x, ft in zip(v.f, E.fields(tid)):
                yield from self.value(st, x, ft, d + 1)

    def elements(self, st, v, d):
        for w in v.writes:
            if w[0] == "w" and w[3][0] == "val" and isinstance(w[3][1], (Adt, Sl)):
                yield from self.value(st, w[3][1], v.etid, d + 1)

    def views(self, st, v, tid, d=0):
        """Object and Array values made of a document whose type was not looked at."""
        E = self.E
        t = E.T[tid] if tid is not None else None
        if t is None or d > 6 or isinstance(v, Sym):
            return
        if t["k"] == "adt" and t.get("path") in VIEWS:
            x = unwrap(v)
            if isinstance(x, Sl) and x.region[0] == "sym" and self.is_yason(x.region[1]) and x.off == ZERO:
                b = E.read_elem(st.copy(), x.region, ZERO, E.u8) if hasattr(E, "read_elem") else None
                if b is not None and not st.facts.entails(c_eq(b - VIEWS[t["path"]])):
                    yield "a view of a document whose type was not checked"
            return
        if t["k"] == "ref" and E.T[t["e"]]["k"] == "str":
            x = unwrap(v)
            if isinstance(x, Sl) and x.region[0] == "sym" and self.is_yason(x.region[1]):
                b = E.read_elem(st.copy(), x.region, ZERO, E.u8)
                if not st.facts.entails(c_or(c_eq(b - 3), c_eq(x.len))):
                    yield "a text read from a document whose type was not checked"
            return
        if isinstance(v, Adt):
            try:
                fs = E.fields(v.tid, v.var)
            except Exception:
                return
            for x, ft in zip(v.f, fs):
                yield from self.views(st, x, ft, d + 1)

    def is_yason(self, term):
        p = self.type_path(term)
        if p is None:
            return False
        for t in p:
            x = self.E.T[t]
            n = 0
            while x["k"] in ("ref", "ptr") and n < 4:
                x, n = self.E.T[x["e"]], n + 1
            if x["k"] == "adt" and x.get("local") and x.get("path") not in (Y, YB):
                return False
        return x.get("path") == Y


def show_region(r):
    return str(r)[:80]


def job(F, key, keys, heads):
    import time
    t0 = time.time()
    r = job_(F, key, keys, heads)
    if os.environ.get("YV_TIME"):
        print("%.1f %s" % (time.time() - t0, key), file=sys.stderr)
    return r


def job_(F, key, keys, heads):
    cut = Cut(F, keys - {key}, heads - {key})
    # above the builders their operations are events
    p = F["fns"][key]["path"]
    cut.building = p.startswith("yason::builder::") or "yason::builder::" in p.split(" as ")[0]
    cut.path = "yason::path::" in p
    E = interp.Engine(F, models, cuts=cut, max_states=200000)
    if not cut.building:
        E.unroll_k = 0
    E.heads = {}
    body = E.fns[key]
    args = [E.mk(("arg", i), body["locals"][i + 1]) for i in range(body["argc"])]
    st = E.start(key, args)
    J = Judge(F, E, cut, body)
    rows = []
    rets = 0
    for o in E.run(st):
        if o.kind == "unsupported":
            rows.append(("undecided:" + o.msg[:60], "undecided: %s in %s" % (o.msg, o.stack[-1] if o.stack else "?")))
            continue
        if o.kind != "ret":
            continue
        rets += 1
        for w in list(J.value(o.state, o.value, body["locals"][0])) + list(J.views(o.state, o.value, body["locals"][0])):
            if w:
                rows.append(("origin:" + w[:60], "returns a document made of " + w if not w.startswith(("a view", "a text")) else "returns " + w))
        for i in range(body["argc"]):
            t = E.T[body["locals"][i + 1]]
            if t["k"] == "ref" and t.get("mut") and isinstance(args[i], Ptr):
                for w in J.value(o.state, args[i], body["locals"][i + 1]):
                    if w:
                        rows.append(("origin:" + w[:60], "leaves a document made of " + w))
    for s, a, tid, stack in cut.passed:
        for w in J.value(s, a, tid):
            if w:
                rows.append(("origin:" + w[:60], "makes a document of %s (in %s)" % (w, stack[-1])))
    st = par.Stats()
    st.use(E)
    return sorted(set(rows)), rets, J.n, st.plain(), sorted(E.unmodelled)


def name_of(F, r):
    """A name that does not depend on how the visitor of serde is called."""
    if r.get("trait") == "serde_core::de::Visitor":
        return "serde visitor of %s::%s" % (F["types"][r["output"]]["s"].split("<", 1)[1].split(",")[0], r["name"])
    return r["key"].split("#")[0]


def C30(F, R):
    R.rules.append("every document, object or array that a safe public function returns, leaves behind or passes on consists of bytes of an existing document, or starts with a byte the library wrote; views of a document are made only after its type is established")
    R.assumptions += ["what builders and scalar encoders write is decided by C03 to C12"]
    roots = roots_of(F)
    keys = {r["key"] for r in roots}
    heads = set()
    for k in sorted(keys):
        heads |= groups_from(F, k)
    names = {r["key"]: name_of(F, r) for r in roots}
    # functions that are not exported themselves are analysed where they are called, too
    cut = {r["key"] for r in roots if r["exported"]}
    jobs = [(job, (F, k, cut, heads)) for k in sorted(keys | heads)]
    n = m = 0
    for (fn, (_, k, _k, _h)), (st, r) in zip(jobs, par.run_jobs(jobs)):
        nm = names.get(k) or k.split("#")[0]
        if st == "error":
            R.bad("undecided:%s" % nm, "%s: %s" % (nm, r))
            continue
        rows, rets, docs, stats, unm = r
        R.use(par.Stats.of(stats))
        for key, text in rows:
            R.bad("%s:%s" % (key, nm), "%s %s" % (nm, text))
        if unm:
            R.bad("undecided:%s" % nm, "%s: call of %s is not modelled" % (nm, unm[0]))
        R.good("documents judged", docs, {"function": nm, "paths": rets, "documents": docs})
        n += rets
        m += docs
    import check_encoders
    fd = check_encoders.analyse(F)
    for p, k, t in fd.items:
        if p == "C10" and k.startswith("result:"):
            R.bad(k, t)
    R.good("encoded documents returned", fd.ok_paths)
    R.floor("safe functions that yield documents", len(keys), 50)
    R.floor("returning paths", n, 100)
    R.floor("documents judged", m, 40)
