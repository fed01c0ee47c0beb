"""C24: a failed step ends every operation with its error."""
from terms import *
from spec import *
import interp
import models
import par
import callgraph
from check_json import is_zero
from interp import Ptr, Sl, VecV, Sym, Adt, is_cond
from models import variant, payload_tid

# library functions that can fail
FOREIGN = ("try_reserve", "try_reserve_exact", "write_str", "write_char", "write_fmt", "from_str", "from_slice", "from_reader", "from_utf8",
           "compact_encode", "format_to_json", "parse", "serialize", "deserialize", "to_writer", "to_string")


def result_of(E, tid):
    """(kind, error type) of a type that can carry a failure."""
    t = E.T[tid]
    if t.get("path") == "core::result::Result":
        return "result", E.fields(tid, 1)[0]
    if t.get("path") == "core::option::Option":
        s = E.T[E.fields(tid, 1)[0]]
        if s.get("path") == "core::result::Result":
            return "option", E.fields(E.fields(tid, 1)[0], 1)[0]
    return None, None


def adapter(E, callee, b):
    """Whether a call only passes an existing result on."""
    return any(carries(E, b["locals"][i + 1]) for i in range(b["argc"]))


def carries(E, tid, d=0):
    t = E.T[tid]
    if d > 4:
        return False
    if t.get("path") in ("core::result::Result", "core::ops::control_flow::ControlFlow"):
        return True
    if t["k"] in ("ref", "ptr"):
        return carries(E, t["e"], d + 1)
    if t["k"] == "adt" and t.get("path") == "core::option::Option":
        return any(carries(E, a, d + 1) for a in t.get("args") or [] if isinstance(a, int))
    return False


class Cut:
    def __init__(self, F):
        self.F = F
        self.sites = set()
        self.graph = callgraph.graph(F)
        self.quiet = {}

    def __call__(self, E, st, callee, args, dest, target_, span):
        if not st.frames:
            return None
        name = callee.get("path") or callee["decl"]
        seg = callee.get("name") or name.rsplit("::", 1)[-1]
        kind, et = result_of(E, dest[3])
        key = callee.get("key")
        if kind is None:
            if callee.get("local") and E.T[dest[3]].get("size") == 0 and E.T[dest[3]]["k"] == "tuple" and self.cannot_fail(E, key):
                # nothing to report: only its effects on its arguments matter
                n = st.ncall
                st.ncall += 1
                for a in args:
                    self.touch(E, st, a, n, 0)
                return E.finish_call(st, dest, target_, E.zst(dest[3]))
            return None
        b = E.fns.get(key)
        if callee.get("local") and b is not None:
            if b.get("closure") or adapter(E, callee, b) or kind == "option" or self.makes_iterator(E, dest[3]):
                return None
            if result_of(E, st.frames[-1].body["locals"][0])[0] == "option" and not self.reads_only(E, b):
                return None   # an iterator's step
        elif callee.get("kind") == "unresolved" or b is None or seg in FOREIGN:
            if seg not in FOREIGN and not (callee.get("kind") == "unresolved" and not name.startswith("core::ops")) :
                return None
            if seg.startswith("try_reserve") or True:
                pass
        else:
            return None
        self.sites.add((st.frames[-1].body["path"], name))
        n = st.ncall
        st.ncall += 1
        fails = None
        if self.reads_only(E, b):
            # the same call gives the same result
            n = (name,) + tuple(E.snapshot(st, a) for a in args)
            fails = c_atom(("fails",) + n)
        else:
            for a in args:
                self.touch(E, st, a, n, 0)
        out = []
        if kind == "option":
            s = st.copy()
            out += E.finish_call(s, dest, target_, variant(E, dest[3], "None", []))
            rt = payload_tid(E, dest[3], "Some")
            wrap = lambda v: variant(E, dest[3], "Some", [v])
        else:
            rt = dest[3]
            wrap = lambda v: v
        e = E.mk(("error", n, E.T[et]["s"]), et)
        for s in assuming(st.copy(), fails):
            s.emit(("fail", e, seg, et, tuple(args)))
            out += E.finish_call(s, dest, target_, wrap(variant(E, rt, "Err", [e])))
        for s in assuming(st, None if fails is None else c_not(fails)):
            out += self.good(E, s, n, rt, wrap, dest, target_)
        return out

    def cannot_fail(self, E, key):
        """Whether nothing a function calls returns a Result."""
        if key not in E.fns:
            return False
        if key not in self.quiet:
            seen, todo, ok = {key}, [key], True
            while todo and ok:
                k = todo.pop()
                b = E.fns[k]
                if "error" in b or not b.get("blocks"):
                    ok = False
                    break
                for bl in b["blocks"]:
                    t = bl and bl["t"]
                    if t and t[0] == "call":
                        ok = ok and "k" in t[1] and isinstance(t[1]["k"]["v"], dict) and "fndef" in t[1]["k"]["v"]
                        f = t[1]["k"]["v"]["fndef"] if ok else {}
                        if (f.get("name") or "") in FOREIGN or f.get("kind") == "unresolved":
                            ok = False
                        elif f.get("key") in E.fns:
                            if result_of(E, E.fns[f["key"]]["locals"][0])[0] is not None:
                                ok = False
                for k2 in self.graph[k]:
                    if k2 not in seen:
                        seen.add(k2)
                        todo.append(k2)
            self.quiet[key] = ok
        return self.quiet[key]

    def makes_iterator(self, E, tid):
        t = E.T[payload_tid(E, tid, "Ok")] if E.T[tid].get("path") == "core::result::Result" else {}
        return t.get("k") == "adt" and t.get("local") and "Iter" in (t.get("path") or "").rsplit("::", 1)[-1]

    def reads_only(self, E, b):
        """Whether the function has only shared references and plain values."""
        if b is None:
            return False
        for i in range(b["argc"]):
            t = E.T[b["locals"][i + 1]]
            n = 0
            while t["k"] == "ref" and n < 4:
                if t.get("mut"):
                    return False
                t, n = E.T[t["e"]], n + 1
            if t["k"] in ("param", "alias", "ptr") or t["k"] == "adt" and not (t.get("local") or n and t.get("path") in ("alloc::string::String", "alloc::vec::Vec")):
                return False
        return True

    def good(self, E, st, n, rt, wrap, dest, target_):
        out = []
        pt = payload_tid(E, rt, "Ok")
        v = E.zst(pt) if E.T[pt].get("size") == 0 else E.mk(("value", n, E.T[pt]["s"]), pt)
        st.emit(("ok", n))
        return out + E.finish_call(st, dest, target_, wrap(variant(E, rt, "Ok", [v])))

    def touch(self, E, st, v, n, d):
        """What a mutable reference leads to is unknown after a call."""
        if isinstance(v, Ptr) and d < 4 and v.cell[0] not in ("el", "konst"):
            try:
                x = E.read_cell(st, v.cell, v.path)
            except Exception:
                return
            y = self.changed(E, st, x, ("after", n, v.cell, v.path), d)
            if y is not None and y != x:
                E.write_cell(st, v.cell, v.path, y)

    def changed(self, E, st, x, term, d, tid=None):
        """A value of which only the references are kept."""
        if isinstance(x, VecV):
            return VecV(x.etid, A(("vlen2", term), 0, interp.ISIZE_MAX), None, ("sym", term), ())
        if isinstance(x, Ptr):
            self.touch(E, st, x, term, d + 1)
            return x
        if isinstance(x, Adt):
            t = E.T[x.tid]
            if t.get("adt") == "enum":
                return E.mk(term, x.tid)
            ts = E.fields(x.tid, x.var or 0) if t["k"] == "adt" else t["fields"] if t["k"] == "tuple" else [None] * len(x.f)
            return Adt(x.tid, x.var, [self.changed(E, st, y, (term, i), d, z) for i, (y, z) in enumerate(zip(x.f, ts))])
        if isinstance(x, Sym) and E.T[x.tid]["k"] in ("adt", "param", "alias"):
            return E.mk(term, x.tid)
        if tid is not None and (isinstance(x, Lin) or is_cond(x)):
            return E.mk(term, tid)
        return x


def assuming(s, c):
    if c is None:
        return [s]
    f = s.facts.assume(c)
    if f is None or f.contradictory():
        return []
    s.facts = f
    return [s]


def mentions(v, e, d=0):
    if v == e:
        return True
    if isinstance(v, Adt):
        return any(mentions(x, e, d + 1) for x in v.f)
    if isinstance(v, Sym):
        return inside(v.term, e)
    return False


def inside(t, e):
    if t == e or isinstance(e, Sym) and t == e.term:
        return True
    if isinstance(t, (Sym, Adt)):
        return mentions(t, e)
    if isinstance(t, tuple):
        return any(inside(x, e) for x in t)
    return False


def failure_of(E, v, tid):
    """The error a returned value carries; None if it is no failure, "?" if unknown."""
    kind, et = result_of(E, tid)
    if kind is None:
        return None
    if kind == "option":
        if isinstance(v, Adt) and vname(E, v) == "Some":
            v = v.f[0]
        elif isinstance(v, Adt):
            return None
        else:
            return "?"
    if isinstance(v, Adt):
        return v.f[0] if vname(E, v) == "Err" else None
    return "?"


def local_error(E, et):
    t = E.T[et]
    return t["k"] == "adt" and t.get("local")


def evs(E, log, seen=None):
    """Failures of a path; those of its loops' completed iterations are marked."""
    out = []
    for e in log:
        if e[0] == "fail":
            out.append((e, False))
        elif e[0] == "loop":
            for s, lg in E.loops[e[2]].backs:
                out += [(x, True) for x, _ in evs(E, lg)]
    return out


def job(F, key):
    cut = Cut(F)
    E = interp.Engine(F, models, cuts=cut, max_states=60000)
    E.unroll_k = 0
    E.heads = {}
    body = E.fns[key]
    args = [E.mk(("arg", i), body["locals"][i + 1]) for i in range(body["argc"])]
    rows = []
    fails = rets = small = 0
    try:
        outs = E.run(E.start(key, args))
    except interp.Unsupported as x:
        return [("undecided:%s" % str(x)[:60], str(x)[:200])], 0, 0, len(cut.sites), None, key
    rt = body["locals"][0]
    for o in outs:
        if o.kind == "unsupported":
            rows.append(("undecided:" + o.msg[:60], "undecided: %s in %s" % (o.msg, o.stack[-1] if o.stack else "?")))
            continue
        if o.kind != "ret":
            continue
        rets += 1
        fs = evs(E, o.state.log)
        if not fs:
            continue
        fails += 1
        r = failure_of(E, o.value, rt)
        for e, inloop in fs:
            if inloop:
                rows.append(("continues:%s" % e[2], "continues its loop after %s failed" % e[2]))
        if any(i for e, i in fs):
            continue
        e = fs[-1][0]
        if r is None and e[2] in ("from_str", "parse") and too_small(E, o, e[1]) and is_zero(o.value.f[0] if isinstance(o.value, Adt) and o.value.f else None):
            small += 1
            continue
        if r is None:
            rows.append(("swallowed:%s" % e[2], "returns %s although %s failed" % (show_val(E, o.value)[:60], e[2])))
        elif r == "?":
            rows.append(("undecided:result", "returns an unknown result after %s failed" % e[2]))
        elif not any(mentions(r, x[1]) for x, _ in fs):
            if all(local_error(E, x[3]) for x, _ in fs) and result_of(E, rt)[1] is not None and local_error(E, result_of(E, rt)[1]):
                if any(mentions(r, a) for x, _ in fs for a in x[4] if isinstance(a, (Lin, Sym))):
                    continue
                rows.append(("cause:%s" % e[2], "replaces the error of %s by %s" % (e[2], show_val(E, r)[:80])))
    st = par.Stats()
    st.use(E)
    return sorted(set(rows)), fails, rets, len(cut.sites), st.plain(), key


def too_small(E, o, e):
    """Whether the failure is that of a number too small to represent."""
    t = E.T[e.tid]
    for v in t.get("variants") or []:
        if v["n"] == "Underflow":
            return o.state.facts.entails(c_eq(A(("discr", e.term), 0, 255) - v["d"]))
    return False


def interesting(F, key):
    b = F["fns"][key]
    if not b.get("local") or b.get("closure"):
        return False
    return True


def only_instances(F):
    """Private functions of a constant parameter, which are analysed for the constants they are used with."""
    T = F["types"]
    users = {r["key"] for r in F["roots"] if r["exported"] or r["reachable"]}
    known = {}
    for k, b in F["fns"].items():
        if b.get("local") and "error" not in b and b.get("locals"):
            open_ = any(T[l]["k"] == "array" and "n" not in T[l] for l in b["locals"])
            known.setdefault(b["path"], []).append((k, open_))
    return {k for ks in known.values() if not all(o for _, o in ks) for k, o in ks if o and k not in users}


def C24(F, R):
    R.rules.append("on every path of every function of the crate on which a call failed, the function returns that error, converted or wrapped, and no loop goes on")
    E, cut = interp.Engine(F, models), Cut(F)
    # a function that reports nothing and reaches nothing that can fail has nothing to pass on
    skip = only_instances(F)
    keys = sorted(k for k in F["fns"] if interesting(F, k) and k not in skip and not (result_of(E, F["fns"][k]["locals"][0])[0] is None and cut.cannot_fail(E, k)))
    jobs = [(job, (F, k)) for k in keys]
    n = m = c = 0
    for k, (st, r) in zip(keys, par.run_jobs(jobs)):
        nm = k.split("#")[0]
        if st == "error":
            R.bad("undecided:%s" % nm, "%s: %s" % (nm, r))
            continue
        rows, fails, rets, sites, stats, _ = r
        if stats:
            R.use(par.Stats.of(stats))
        for key, text in rows:
            R.bad("%s:%s" % (key, nm), "%s %s" % (nm, text))
        R.good("failing paths", fails, {"function": nm, "failing paths": fails} if fails else None)
        n += fails
        m += rets
        c += sites
    R.floor("functions", len(keys), 200)
    R.floor("failing paths", n, 200)
    R.floor("calls that can fail", c, 100)
