"""C33: views and copies of documents, and clones of values."""
from terms import *
import interp
import models
from interp import Ptr, Sl, VecV, Sym, Adt, Arr, is_cond
from spec import unwrap, vname
from readers import short

OWNED = "yason::yason::YasonBuf"
SLICE = "yason::yason::Yason"
PARTS = ("yason::yason::array::Array", "yason::yason::object::Object")


class Undecided(Exception):
    pass


def kind(F, tid):
    """What a type is, references aside: a document, part of one, bytes or a parameter."""
    t = F["types"][tid]
    while t["k"] == "ref":
        tid = t["e"]
        t = F["types"][tid]
    p = t.get("path")
    if p in (OWNED, SLICE):
        return "doc"
    if p in PARTS:
        return p
    if t["s"] in ("[u8]", "alloc::vec::Vec<u8>", "std::vec::Vec<u8>"):
        return "bytes"
    if t["k"] == "param":
        return "param"
    return None


def output(F, tid):
    """Of what kind the result is, and whether the call can fail."""
    t = F["types"][tid]
    if t.get("path") == "core::result::Result":
        ok = next(v for v in t["variants"] if v["n"] == "Ok")
        return kind(F, field_type(ok, 0)), True
    return kind(F, tid), False


def field_type(v, i):
    f = v["f"][i]
    return f["t"] if isinstance(f, dict) else f[1] if isinstance(f, (list, tuple)) else f


def bytes_of(E, st, v, d=0):
    """The bytes of a document: a list of (region, offset, length)."""
    v = unwrap(v)
    if d > 8:
        raise Undecided("%r" % (v,))
    if isinstance(v, Sym):
        return bytes_of(E, st, E.expand(v), d + 1)
    if isinstance(v, Ptr):
        return bytes_of(E, st, E.read_cell(st, v.cell, v.path), d + 1)
    if isinstance(v, Adt) and len(v.f) == 1:
        return bytes_of(E, st, v.f[0], d + 1)
    if isinstance(v, Sl):
        if v.region[0] == "sym":
            return [(v.region, v.off, v.len)]
        if v.region[0] == "place":
            c, path = v.region[1], v.region[2]
            x = unwrap(E.read_cell(st, c, path))
            if isinstance(x, Sym):
                x = unwrap(E.expand(x))
            if isinstance(x, VecV):
                segs = vec_bytes(st, x)
                return cut(st, segs, v.off, v.len)
    if isinstance(v, VecV):
        return vec_bytes(st, v)
    raise Undecided("%r" % (v,))


def total(segs):
    return sum((s[2] for s in segs), ZERO)


def vec_bytes(st, v):
    f = st.facts
    segs = []
    if v.init is not None:
        old = A(("len", v.init[1]), 0, interp.len_max(v.init[1])) if v.init[0] == "sym" and v.writes else v.len
        segs = [(v.init, ZERO, old)]
    for w in v.writes:
        end = total(segs)
        if w[0] == "trunc":
            segs = cut(st, segs, ZERO, w[1])
        elif w[0] == "w" and w[3][0] == "copy":
            new = (w[3][1], w[3][2] if isinstance(w[3][2], Lin) else const(w[3][2]), w[2])
            head = cut(st, segs, ZERO, w[1])
            after = w[1] + w[2]
            if not f.entails(c_ge(after - end)):
                segs = head + [new] + cut(st, segs, after, end - after)
            else:
                segs = head + [new]
        else:
            raise Undecided("a write %r" % (w,))
    return merge(f, segs)


def cut(st, segs, off, ln):
    """The part of the bytes from off on, ln long."""
    f = st.facts
    out, pos, end = [], ZERO, off + ln
    for r, o, n in segs:
        nx = pos + n
        if f.entails(c_ge(off - nx)) or f.entails(c_ge(pos - end)):
            pos = nx
            continue
        a = off if f.entails(c_ge(off - pos)) else pos if f.entails(c_ge(pos - off)) else None
        b = end if f.entails(c_ge(nx - end)) else nx if f.entails(c_ge(end - nx)) else None
        if a is None or b is None:
            raise Undecided("a part of the bytes")
        out.append((r, o + a - pos, b - a))
        pos = nx
    if not f.entails(c_eq(total(out) - ln)):
        raise Undecided("a part of the bytes")
    return out


def merge(f, segs):
    out = []
    for r, o, n in segs:
        if f.entails(c_eq(n)):
            continue
        if out and out[-1][0] == r and f.entails(c_eq(out[-1][1] + out[-1][2] - o)):
            out[-1] = (r, out[-1][1], out[-1][2] + n)
        else:
            out.append((r, o, n))
    return out


def same_bytes(f, a, b):
    a, b = merge(f, a), merge(f, b)
    return len(a) == len(b) and all(x[0] == y[0] and f.entails(c_eq(x[1] - y[1])) and f.entails(c_eq(x[2] - y[2])) for x, y in zip(a, b))


def show(segs):
    return " then ".join("%s bytes from offset %s of %s" % (n, o, r[1] if r[0] == "sym" else r) for r, o, n in segs) or "no bytes"


def same_value(E, f, s0, a, s1, b, d=0):
    """Whether two values are equal all the way down."""
    if a == b:
        return True
    if d > 12:
        return False
    a, b = (E.expand(x) if isinstance(x, Sym) and not opaque(E, x) else x for x in (a, b))
    if a == b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return same_value(E, f, s0, E.read_cell(s0, a.cell, a.path), s1, E.read_cell(s1, b.cell, b.path), d + 1)
    if isinstance(a, Lin) and isinstance(b, Lin):
        return f.entails(c_eq(a - b))
    if is_cond(a) and is_cond(b):
        return same_cond(f, a, b)
    if isinstance(a, Adt) and isinstance(b, Adt):
        return a.tid == b.tid and a.var == b.var and len(a.f) == len(b.f) and all(same_value(E, f, s0, x, s1, y, d + 1) for x, y in zip(a.f, b.f))
    if isinstance(a, (Sl, VecV)) and isinstance(b, (Sl, VecV)):
        try:
            return same_bytes(f, bytes_of(E, s0, a), bytes_of(E, s1, b))
        except Undecided:
            return False
    return False


def same_cond(f, a, b):
    for x, y in ((a, b), (b, a)):
        g = f.assume(x)
        if g is not None and not g.contradictory() and not g.entails(y):
            return False
    return True


def opaque(E, x):
    return E.T[x.tid]["k"] != "adt" and E.T[x.tid]["k"] != "ref"


def roots(F):
    """(key, role): views and copies, assignments and clones."""
    out = []
    for x in F["roots"]:
        ins = x["inputs"]
        ks = [kind(F, i) for i in ins]
        o, fails = output(F, x["output"])
        if x["name"] == "clone" and x.get("trait") == "core::clone::Clone" and len(ins) == 1:
            out.append((x["key"], "clone"))
        elif len(ins) == 1 and F["types"][ins[0]].get("mut"):
            continue
        elif len(ins) == 1 and o is not None and (ks[0] == "doc" and o in ("doc", "bytes") or ks[0] in PARTS and o in (ks[0], "doc") or ks[0] in ("bytes", "param") and o == "doc" and x["unsafe"]):
            out.append((x["key"], "view"))
        elif len(ins) == 1 and ks[0] in ("doc", "bytes") and o in PARTS and not fails and x["unsafe"]:
            out.append((x["key"], "view"))
        elif len(ins) == 2 and ks == ["doc", "doc"] and F["types"][ins[0]].get("mut") and F["types"][x["output"]]["s"] == "()":
            out.append((x["key"], "assign"))
    return out


def view(E, s0, args, o):
    v = o.value
    if isinstance(v, Adt) and E.T[v.tid].get("path") == "core::result::Result":
        if vname(E, v) == "Err":
            return None if "reserve" in repr(v.f[0]) else "fails although the memory is there"
        v = v.f[0]
    got = bytes_of(E, o.state, v)
    g = got[0] if len(got) == 1 else None
    if g and g[0][0] == "sym" and isinstance(g[0][1], tuple) and g[0][1][0] == "as_ref" and any(w in repr(g[0][1]) for w in ("'arg', 0", "arg(0)")):
        want = [(g[0], ZERO, A(("len", g[0][1]), 0, interp.len_max(g[0][1])))]
    else:
        want = bytes_of(E, s0, args[0])
    if not same_bytes(o.state.facts, got, want):
        return "yields %s instead of %s" % (show(got), show(want))
    return None


def assign(E, s0, args, o):
    got = bytes_of(E, o.state, args[0])
    want = bytes_of(E, s0, args[1])
    if not same_bytes(o.state.facts, got, want):
        return "leaves %s instead of %s" % (show(got), show(want))
    return None


def clone(E, s0, args, o):
    a = args[0]
    a = E.read_cell(o.state, a.cell, a.path) if isinstance(a, Ptr) else a
    b = o.value
    if isinstance(a, Sym):
        a = expand_like(E, o.state, a, b)
    if not same_value(E, o.state.facts, o.state, a, o.state, b):
        return "yields a value that differs from the original"
    return None


def expand_like(E, st, a, b):
    """A symbolic value of an enum, in the variant the path has found."""
    t = E.T[a.tid]
    if t["k"] == "adt" and len(t["variants"]) > 1:
        if not isinstance(b, Adt):
            return a
        w = t["variants"][b.var]["d"]
        d = A(("discr", a.term), 0, max(v["d"] for v in t["variants"]))
        if not st.facts.entails(c_eq(d - w)):
            raise Undecided("the variant of the original")
        return Adt(a.tid, b.var, [E.mk(("f", a.term, b.var, i), field_type(t["variants"][b.var], i)) for i in range(len(t["variants"][b.var]["f"]))])
    return E.expand(a) if t["k"] == "adt" else a


JUDGE = {"view": view, "assign": assign, "clone": clone}


def C33(F, R):
    R.rules.append("every function that turns a document into another form of the same document (borrowed, owned, bytes, clone, assignment) returns exactly the bytes of its argument on every path; every clone of a value, array or object has the variant and the contents of the original")
    R.assumptions += ["the callers of unsafe constructors pass valid documents", "cloning a number yields the same number"]
    n = {"view": 0, "assign": 0, "clone": 0}
    for key, role in roots(F):
        n[role] += 1
        E = interp.Engine(F, models, max_states=60000)
        body = E.fns[key]
        args = [E.mk(("arg", i), body["locals"][i + 1]) for i in range(body["argc"])]
        st = E.start(key, args)
        s0 = st.copy()
        outs = E.run(st)
        R.use(E)
        for name in E.unmodelled:
            R.bad("undecided:%s" % short(key), "%s: call of %s is not modelled" % (short(key), name))
        for o in outs:
            if o.kind != "ret":
                t = "%s: %s" % (o.kind, o.msg)
            else:
                try:
                    t = JUDGE[role](E, s0, args, o)
                except (Undecided, interp.Unsupported) as e:
                    t = "cannot be decided: %s" % str(e)[:200]
            if t is None:
                R.good(role)
            else:
                R.bad("%s:%s" % (role, short(key)), "%s %s" % (short(key), t))
        if not outs:
            R.bad("%s:%s" % (role, short(key)), "%s has no result" % short(key))
        for ok, what, span, stack, cond, _ in E.obligations:
            if not ok and "reserv" not in what:
                R.bad("bounds:%s" % short(key), "%s: %s is not proven (%s)" % (short(key), what, cond[:160]))
    R.floor("views and copies", n["view"], 8)
    R.floor("assignments", n["assign"], 1)
    R.floor("clones", n["clone"], 4)
