"""The array and object builders as state machines: a builder that has had C of
its N elements pushed is described by a template learned from its constructor
and one push; every operation is analysed once from that arbitrary state, and
compared with what it has to do to the state and to the buffer."""
import re
from terms import *
from spec import *
import interp
import models
import layout as L
from interp import Adt, Sl, Ptr, VecV, Sym, State
from readers import keys_of_path, order, excluded, quarter, table_index, key_arg, Doc, dval

B = "yason::builder::"
ABUILD, AREF = B + "array::ArrayBuilder", B + "array::ArrayRefBuilder"
OBUILD, OREF = B + "object::ObjectBuilder", B + "object::ObjectRefBuilder"
MAXSTR, MAXKEY, MAXSIZE, MAXDEPTH = (1 << 28) - 1, 65535, (1 << 31) - 1, 100
DOC = ("sym", ("doc",))


def walk(v, f, path=()):
    if isinstance(v, Adt):
        return Adt(v.tid, v.var, [walk(x, f, path + (i,)) for i, x in enumerate(v.f)])
    return f(path, v)


def leaves(v):
    out = {}

    def f(p, x):
        out[p] = x
        return x
    walk(v, f)
    return out


class Findings:
    """Problems found, per property, with the operation they concern."""
    def __init__(self):
        self.items = []      # (property, key, text)
        self.engines = []
        self.cases = 0
        self.ops = 0
        self.ok_paths = 0
        self.err_paths = 0

    def bad(self, props, key, text):
        for p in props if isinstance(props, (list, tuple)) else [props]:
            if (p, key, text) not in self.items:
                self.items.append((p, key, text))


def type_path(F, tid):
    t = F["types"][tid]
    return t.get("path") if t else None


def methods(F, path):
    """(name, root) of the methods of a builder type, public or by trait."""
    return [(x["name"], x) for x in F["roots"] if x.get("self_ty") is not None and type_path(F, x["self_ty"]) == path]


def ctor_key(F, path):
    ks = [x["key"] for n, x in methods(F, path) if n == "try_new" and not x.get("trait")]
    return ks[0] if ks else None


def short_type(path):
    return path.split("::")[-1]


class Class:
    """A builder type with its state template."""
    def __init__(self, F, path):
        self.F, self.path = F, path
        self.name = short_type(path)
        self.kind = "array" if "rray" in self.name else "object"
        self.w = 5 if self.kind == "array" else 4
        self.code = 2 if self.kind == "array" else 1
        self.problem = None


def new_engine(F, cls=None):
    E = interp.Engine(F, models)
    return E


def collect(fd, E, outs, key):
    fd.engines.append(E)
    for o in outs:
        if o.kind == "panic":
            fd.bad("C28", "panic:" + key, "%s: may panic: %s at %s" % (key, o.msg, o.span.split(":")[0]))
        elif o.kind == "unsupported":
            fd.bad(ALLP, "undecided:" + key, "%s: cannot be decided: %s (in %s)" % (key, o.msg, o.stack[-1] if o.stack else "?"))
    for ok_, what, span, stack, cond, st in E.obligations:
        if not ok_:
            fd.bad(["C11"] if "reservation" in what else ["C28", "C09"], "bounds:" + key, "%s: %s: not proven in %s (%s)" % (key, what, " > ".join(stack[-2:]), cond[:150]))
    for n in E.unmodelled:
        fd.bad(ALLP, "undecided:" + key, "%s: call of %s is not modelled" % (key, n))


ALLP = ["C03", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C28"]


def ok_payload(E, v):
    return v.f[0] if isinstance(v, Adt) and E.T[v.tid]["k"] == "adt" and vname(E, v) == "Ok" else None


def err_payload(E, v):
    return v.f[0] if isinstance(v, Adt) and E.T[v.tid]["k"] == "adt" and vname(E, v) == "Err" else None


def reserve_failed(o, since=0):
    return any(e[0] == "reserve" and e[4] is False for e in o.state.log[since:])


def find_vec(E, st, v):
    """(cell, path) of the vector a builder value writes to."""
    for p, x in leaves(v).items():
        if isinstance(x, Ptr):
            try:
                c = E.read_cell(st, x.cell, x.path)
            except Exception:
                continue
            if isinstance(c, VecV):
                return x.cell, x.path
    return None


# ------------------------------------------------------------------ templates
def construct(F, fd, cls):
    """Analyses the constructor of an outermost builder; fills in the class."""
    key = ctor_key(F, cls.path)
    name = cls.name + "::try_new"
    if key is None:
        fd.bad(ALLP, "missing:" + name, "%s is not found in the current source" % name)
        return None
    E = new_engine(F)
    body = E.fns[key]
    st = State()
    n0 = A(("buflen",), 0, interp.ISIZE_MAX)
    args = []
    cls.owned = True
    for i in range(body["argc"]):
        t = body["locals"][i + 1]
        tt = F["types"][t]
        if tt["k"] == "ref":
            cls.owned = False
            u8 = E.u8
            st.mem[("buf",)] = VecV(u8, n0, None, ("sym", ("before",)))
            args.append(Ptr(("buf",)))
        else:
            args.append(E.mk(("arg", i), t))
    cls.N = next(a for a in args if isinstance(a, Lin))
    cls.S = ZERO if cls.owned else n0
    outs = E.run(E.start(key, args, st))
    collect(fd, E, outs, name)
    fd.ops += 1
    vals = []
    for o in outs:
        if o.kind != "ret":
            continue
        fd.cases += 1
        b = ok_payload(E, o.value)
        if b is None:
            fd.err_paths += 1
            if not reserve_failed(o):
                fd.bad(["C05", "C06"], "refused:" + name, "%s fails with %s on a path where no reservation failed" % (name, show_val(E, o.value)))
            if not cls.owned and not L.untouched(E, o.state.facts, o.state.mem[("buf",)], n0):
                fd.bad("C10", "append:" + name, "%s changes the bytes already in the buffer when it fails" % name)
            continue
        fd.ok_paths += 1
        V = o.state.mem[("buf",)] if not cls.owned else next((x for x in leaves(b).values() if isinstance(x, VecV)), None)
        if V is None:
            fd.bad(ALLP, "undecided:" + name, "%s: the builder owns no buffer" % name)
            continue
        if cls.owned:
            for p, x in leaves(b).items():
                if isinstance(x, VecV):
                    cls.vecpath = p
        header(E, fd, o.state, o.state.facts, V, cls.S, cls, cls.N, name, end=True)
        if not cls.owned and not L.untouched(E, o.state.facts, V, n0):
            fd.bad("C10", "append:" + name, "%s changes the bytes already in the buffer" % name)
        vals.append((o, b))
    if not vals:
        fd.bad(ALLP, "undecided:" + name, "%s: no successful path" % name)
        return None
    cls.E0, cls.key0 = E, key
    cls.out0, cls.b0 = vals[0]
    strip = lambda b: walk(b, lambda p, x: ("vec",) if isinstance(x, VecV) else x)
    for o, b in vals[1:]:
        if strip(b) != strip(cls.b0):
            fd.bad(ALLP, "undecided:" + name, "%s: the successful paths leave different states" % name)
    cls.level = const(1)
    return cls


def header(E, fd, st, facts, V, pos, cls, n, name, end):
    """The header of a new container at pos: type, size field, count, table."""
    segs = [L.b1(cls.code, "type code"), L.Seg("any", const(4), None, "size field"), L.le(n, 2, "element count"),
            L.Seg("fill", n.scale(cls.w), None, "table")]
    ms, e = match_any(E, st, facts, V, pos, segs)
    for lab, t in ms:
        fd.bad(["C03", "C09"] if lab in ("table", "size field") else ["C03"], "layout:" + name, "%s: %s" % (name, t))
    if end and not facts.entails(c_eq(e - V.len)):
        fd.bad("C03", "layout:" + name, "%s: writes up to %r instead of %r" % (name, V.len, e))


def match_any(E, st, facts, V, pos, segs):
    """match_segs with placeholders: "any" must be written, "fill" must be written
    throughout with zero."""
    out = []
    for sg in segs:
        if sg.kind in ("any", "fill"):
            if not facts.entails(c_eq(sg.n)):
                hit = L.find_write(E, facts, V, pos, sg.n)
                if hit is None:
                    # byte by byte for short ones
                    okb = sg.n.is_const() and all(L.find_write(E, facts, V, pos + i, const(1)) for i in range(sg.n.c))
                    if not okb:
                        out.append((sg.label, "%s is not written" % sg.label))
                elif sg.kind == "fill" and not (hit[0][0] == "fill" and hit[0][1] == ZERO):
                    out.append((sg.label, "%s is not filled with zero" % sg.label))
            pos = pos + sg.n
        else:
            ms, pos = L.match_segs(E, st, facts, V, pos, [sg])
            out += ms
    return out, pos


def call(E, key, args, st):
    st.frames = ()
    return E.run(E.start(key, args, st))


def sample_args(E, key, first):
    body = E.fns[key]
    return [first] + [E.mk(("sarg", i), body["locals"][i + 1]) for i in range(1, body["argc"])]


def observe(E, st, b, vec):
    """The leaves of a builder and of what it points to, without the buffer."""
    out = {}
    for p, x in leaves(b).items():
        if isinstance(x, VecV):
            continue
        out[p] = x
        if isinstance(x, Ptr) and (x.cell, x.path) != vec:
            try:
                out[p + ("*",)] = E.read_cell(st, x.cell, x.path)
            except Exception:
                pass
    return out


def learn(F, fd, cls):
    """Learns from one scalar push which fields count, and from one container
    push where the depth is kept."""
    name = cls.name
    ms = dict((n, x) for n, x in methods(F, cls.path) if not x.get("trait"))
    for want in ("push_null", "push_array", "push_object", "finish"):
        if want not in ms:
            fd.bad(ALLP, "missing:%s::%s" % (name, want), "%s::%s is not found in the current source" % (name, want))
            return None
    E = new_engine(F)
    st = start_state(E, cls)
    base = observe(E, st, st.mem[("bld",)], cls.vec)
    f = st.facts.assume(c_ge(cls.N - 1))
    res = {}
    for op in ("push_null", "push_array"):
        s = st.copy()
        s.facts = f
        outs = call(E, ms[op]["key"], sample_args(E, ms[op]["key"], Ptr(("bld",))), s)
        oks = [o for o in outs if o.kind == "ret" and ok_payload(E, o.value) is not None]
        if not oks:
            fd.bad(ALLP, "undecided:" + name, "%s::%s has no successful path from a new builder" % (name, op))
            return None
        res[op] = observe(E, oks[0].state, oks[0].state.mem[("bld",)], cls.vec)
    cls.delta, cls.depth = {}, None
    for p, x in base.items():
        y = res["push_null"].get(p)
        if isinstance(x, Lin) and isinstance(y, Lin) and (y - x).is_const():
            if (y - x).c:
                cls.delta[p] = (y - x).c
        elif x != y:
            fd.bad(ALLP, "undecided:" + name, "%s: a field changes from %r to %r with a push" % (name, x, y))
            return None
        z = res["push_array"].get(p)
        if isinstance(y, Lin) and isinstance(z, Lin) and z != y:
            if (z - y) == const(1) and cls.depth is None:
                cls.depth = p
            else:
                fd.bad(ALLP, "undecided:" + name, "%s: unexpected change of a field from %r to %r by a nested push" % (name, y, z))
                return None
    if cls.depth is None:
        fd.bad(ALLP, "undecided:" + name, "%s: no field keeps the nesting depth" % name)
        return None
    return cls


def start_state(E, cls):
    """A new builder in cell bld."""
    st = State()
    if cls.inner:
        for c, v in cls.mem0.items():
            st.mem[c] = v
        st.facts = cls.facts0
        st.mem[("bld",)] = cls.b0
        cls.vec = find_vec(E, st, cls.b0)
    else:
        st.facts = cls.out0.state.facts
        if cls.owned:
            st.mem[("bld",)] = cls.b0
            cls.vec = (("bld",), cls.vecpath)
        else:
            st.mem[("buf",)] = cls.out0.state.mem[("buf",)]
            st.mem[("bld",)] = cls.b0
            cls.vec = (("buf",), ())
    return st


def generic_state(E, cls, lname=("len", ("doc",)), X=None):
    """The builder after C pushes, with an arbitrary buffer and depth X."""
    C = A(("pushed",), 0, 65535)
    X = A(("depth",), 0, interp.ISIZE_MAX) if X is None else X
    Ln = A(lname, 0, interp.ISIZE_MAX)
    st = start_state(E, cls)
    f = interp.State().facts
    for c in (c_ge(cls.N - C), c_ge(X - cls.level), c_ge(Ln - cls.S - cls.N.scale(cls.w) - 7), c_ge(cls.S), c_ge(cls.level - 1), c_ge(const(MAXDEPTH) - cls.level)):
        f = f.assume(c)
    st.facts = f
    gen = VecV(E.u8, Ln, None, DOC)

    def sub(p, x):
        if isinstance(x, VecV):
            return gen
        if p == cls.depth:
            return X
        if isinstance(x, Lin) and p in cls.delta:
            return x + C.scale(cls.delta[p])
        return x
    st.mem[("bld",)] = walk(st.mem[("bld",)], sub)
    if not (cls.vec[0] == ("bld",)):
        E.write_cell(st, cls.vec[0], cls.vec[1], gen)
    if cls.depth[-1:] == ("*",):
        p = leaves(st.mem[("bld",)])[cls.depth[:-1]]
        E.write_cell(st, p.cell, p.path, X)
    return st, C, X, Ln


def key_hook(cls, C, Ln):
    """What is known of the first C entries of the key table of an object: they
    refer to keys inside the buffer, after the table."""
    def hook(E, st, x, region, off, n):
        if region != DOC or n != 4:
            return
        i = quarter(off - cls.S - 7)
        if i is None or not st.facts.entails(c_and(c_ge(i), c_ge(C - i - 1))):
            return
        kl = A(("le", DOC, cls.S + x + 5, 2, False), 0, 65535)
        for c in (c_ge(x - cls.N.scale(4) - 2), c_ge(Ln - cls.S - x - 7), c_ge(Ln - cls.S - x - 7 - kl)):
            f = st.facts.assume(c)
            if f is not None:
                st.facts = f
    return hook


# ------------------------------------------------------------------ operations
SCALARS = {"push_string": 3, "push_number": 4, "push_bool": 5, "push_null": 6}
NESTED = {"push_object": 1, "push_array": 2}


def as_ref_slice(E, body, i):
    t = interp.TYNAME(body["locals"][i + 1])
    term = ("as_ref", t, ("arg", i))
    return Sl(("sym", term), ZERO, A(("len", term), 0, interp.len_max(term)), None)


def check_op(F, fd, cls, name, root, inners):
    key = root["key"]
    label = "%s::%s" % (cls.label, name) + (" (%s)" % root["trait"].split("::")[-1] if root.get("trait") else "")
    E = new_engine(F)
    body = E.fns[key]
    st, C, X, Ln = generic_state(E, cls)
    S, N, lvl = cls.S, cls.N, cls.level
    before = observe(E, st, st.mem[("bld",)], cls.vec)
    if cls.kind == "object":
        E.le_hook = key_hook(cls, C, Ln)
    args = [Ptr(("bld",))] + [E.mk(("arg", i), body["locals"][i + 1]) for i in range(1, body["argc"])]
    fin = name == "finish"
    if fin:
        args[0] = st.mem[("bld",)]
        if cls.owned and not cls.inner:
            pass
    outs = call(E, key, args, st)
    collect(fd, E, outs, label)
    fd.ops += 1
    D = Doc(Sl(DOC, S, Ln - S, None))
    ki = 1 if cls.kind == "object" else 0      # position of the value argument minus one
    keysl = as_ref_slice(E, body, 1) if cls.kind == "object" and not fin else None
    rules = search_candidates(E, D, C, label) if cls.kind == "object" else None

    for o in outs:
        if o.kind != "ret":
            continue
        err = err_payload(E, o.value)
        good = ok_payload(E, o.value)
        if err is None and good is None:
            fd.bad(ALLP, "undecided:" + label, "%s returns %s" % (label, show_val(E, o.value)))
            continue
        strl = None
        if name == "push_string":
            strl = as_ref_slice(E, body, 1 + ki)
        f = o.state.facts
        fd.cases += 1
        if fin:
            V = final_vec(E, o, cls, good)
        else:
            V = E.read_cell(o.state, *cls.vec)
        if err is not None:
            fd.err_paths += 1
            check_err(E, fd, cls, label, o, f, err, C, X, Ln, keysl, strl, name)
            if fin and cls.depth[-1:] == ("*",):
                d = final_depth(E, o.state, cls)
                if not same(f, X, d) and not f.entails(c_ge(d - cls.level)):
                    fd.bad("C06", "depth:" + label, "%s fails but leaves the depth at %r, so the enclosing builder is usable" % (label, d))
            if not fin:
                if not same_bytes(E, f, V, Ln):
                    fd.bad("C07", "atomic:" + label, "%s fails with %s but leaves the buffer changed" % (label, show_val(E, err)))
                after = observe(E, o.state, o.state.mem[("bld",)], cls.vec)
                for p, x in before.items():
                    y = after.get(p)
                    if not same(f, x, y):
                        fd.bad("C07", "atomic:" + label, "%s fails with %s but changes the builder's state from %r to %r" % (label, show_val(E, err), x, y))
            continue
        fd.ok_paths += 1
        for props, c, what in ok_conditions(cls, name, C, X, Ln, keysl, strl):
            if not f.entails(c):
                fd.bad(props, "accepted:" + label, "%s succeeds although it is not established that %s" % (label, what))
                f = f.assume(c) or f
        if fin:
            check_finish(E, fd, cls, label, o, f, good, V, X, Ln)
            continue
        check_push(E, fd, cls, label, name, o, f, good, V, body, args, before, C, X, Ln, keysl, strl, D, rules, inners, ki)


def same(f, x, y):
    if x == y:
        return True
    if isinstance(x, Lin) and isinstance(y, Lin):
        return f.entails(c_eq(x - y))
    if is_cond(x) and is_cond(y):
        return f.entails(c_eq(cond_lin(x) - cond_lin(y)))
    return False


def same_bytes(E, f, V, Ln):
    """The content is that of before: same length, nothing below it written."""
    if not isinstance(V, VecV) or not f.entails(c_eq(V.len - Ln)):
        return False
    return L.untouched(E, f, V, Ln)


def final_vec(E, o, cls, good):
    if good is not None:
        r = L.vec_of(E, o.state, good)
        if r:
            return r[0]
    if cls.vec[0] != ("bld",):
        return E.read_cell(o.state, *cls.vec)
    return None


def ok_conditions(cls, name, C, X, Ln, keysl, strl):
    out = [(["C06"], c_eq(X - cls.level), "no inner builder is unfinished")]
    if name == "finish":
        out.append((["C05"], c_eq(C - cls.N), "all declared elements have been pushed"))
        out.append((["C08"], c_ge(const(MAXSIZE) - (Ln - cls.S - 5)), "the total size fits its field"))
        return out
    out.append((["C05", "C28"], c_ge(cls.N - C - 1), "fewer than the declared number of elements have been pushed"))
    if name in NESTED:
        out.append((["C06"], c_ge(const(MAXDEPTH - 1) - cls.level), "the nesting depth stays within 100"))
    if keysl is not None:
        out.append((["C08"], c_ge(const(MAXKEY) - keysl.len), "the key length fits its field"))
    if strl is not None:
        out.append((["C08"], c_ge(const(MAXSTR) - strl.len), "the string length can be encoded"))
    if not (cls.kind == "array" and name in ("push_bool", "push_null")):
        out.append((["C08"], c_ge(const((1 << 32) - 1) - (Ln - cls.S - 5)), "the offset fits its field"))
    return out


def check_err(E, fd, cls, label, o, f, err, C, X, Ln, keysl, strl, name):
    v = vname(E, err) if isinstance(err, Adt) else None
    why = None
    fields = {}
    if isinstance(err, Adt):
        vv = E.T[err.tid]["variants"][err.var]
        fields = {g["n"]: x for g, x in zip(vv["f"], err.f)}
    if v is None:
        # an error passed on from an operation of the library
        if not reserve_failed(o):
            fd.bad(ALLP, "undecided:" + label, "%s fails with %s" % (label, show_val(E, err)))
        return
    props = ["C05"]
    if v == "InnerUncompletedError":
        props, why, c = ["C06"], "an inner builder is unfinished", c_not(c_eq(X - cls.level))
    elif v == "InconsistentElementCount":
        c = c_not(c_eq(C - cls.N)) if name == "finish" else c_ge(C - cls.N)
        why = "the number of elements differs from the declared one"
        x = fields.get("expected")
        if not (isinstance(x, Lin) and f.entails(c_eq(x - cls.N))):
            fd.bad("C05", "names:" + label, "%s: the inconsistent-count error names %r as declared instead of %r" % (label, x, cls.N))
        y = fields.get("actual")
        # the attempted count, or the most the field can hold
        want = C if name == "finish" else C + 1
        if not (isinstance(y, Lin) and (f.entails(c_eq(y - want)) or f.entails(c_eq(y - C)) or f.entails(c_eq(y - 65535)))):
            fd.bad("C05", "names:" + label, "%s: the inconsistent-count error names %r as actual" % (label, y))
    elif v == "NestedTooDeeply":
        props, why, c = ["C06"], "the nesting depth exceeds 100", c_ge(cls.level - MAXDEPTH) if name in NESTED else False
    elif v == "KeyTooLong":
        props, why, c = ["C08"], "the key is longer than 65535 bytes", c_ge(keysl.len - MAXKEY - 1) if keysl is not None else False
    elif v == "StringTooLong":
        props, why, c = ["C08"], "the string is longer than 2^28-1 bytes", c_ge(strl.len - MAXSTR - 1) if strl is not None else False
    elif v == "TooLarge":
        props, why, c = ["C08"], "the container exceeds 2^31-1 bytes", c_ge(Ln - cls.S - 5 - MAXSIZE - 1)
    elif reserve_failed(o):
        return
    else:
        props, why, c = ["C11"], "a reservation failed", False
    if not f.entails(c):
        fd.bad(props, "refused:" + label, "%s fails with %s on a path that does not establish that %s" % (label, v, why))


def value_segs(S_, E, cls, name, body, args, ki, keysl, strl, o):
    """The encoding of a pushed value behind its type byte."""
    if name == "push_string":
        return L.varint(S_, strl.len, "length prefix") + [L.copy(strl, "string")]
    if name == "push_number":
        t = next(x for x in o.state.mem if False) if False else None
        term = ("as_ref", interp.TYNAME(body["locals"][2 + ki]), ("arg", 1 + ki))
        nt = Numterm(term)
        n = numlen_of(o, nt)
        return [L.b1(n, "number length"), L.Seg("num", n, nt, "number")]
    if name == "push_bool":
        return [L.b1(cond_lin(args[1 + ki]), "bool")]
    return []


class Numterm:
    """Equal to the number argument's term, however it is referred to."""
    def __init__(self, term):
        self.term = term

    def __eq__(self, x):
        return mentions(x, self.term)

    def __ne__(self, x):
        return not self == x

    __hash__ = None

    def __repr__(self):
        return "the number argument"


def mentions(x, t):
    if x == t:
        return True
    if isinstance(x, tuple):
        return any(mentions(y, t) for y in x)
    if isinstance(x, Ptr):
        return mentions(x.cell, t)
    if isinstance(x, Sym):
        return mentions(x.term, t)
    return False


def numlen_of(o, nt):
    import terms
    for k, i in list(terms._ATOM_IX.items()):
        if isinstance(k, tuple) and k[0] == "numlen" and nt == k[1]:
            for v in o.state.mem.values():
                pass
            return lin_atom(i)
    return A(("numlen", "unknown"), 1, 18)


def inner_class(name):
    return {"push_object": "object", "push_array": "array"}[name]


def check_push(E, fd, cls, label, name, o, f, good, V, body, args, before, C, X, Ln, keysl, strl, D, rules, inners, ki):
    S, N, w = cls.S, cls.N, cls.w
    t = SCALARS.get(name) or NESTED.get(name)
    st = o.state
    after = observe(E, st, st.mem[("bld",)], cls.vec)
    # bookkeeping
    for p, x in before.items():
        want = x
        if isinstance(x, Lin):
            want = x + cls.delta.get(p, 0)
            if p == cls.depth and name in NESTED:
                want = cls.level + 1
        if not same(f, want, after.get(p)):
            pr = ["C06"] if p == cls.depth else ["C03", "C05"]
            fd.bad(pr, "state:" + label, "%s leaves a field of the builder at %r instead of %r" % (label, after.get(p), want))
    cnt = typed(("arg", 1 + ki), 0, 65535) if name in NESTED else None
    raw = name == "push_object_or_array"

    def spec(S_):
        entry = S + C.scale(w) + 7
        segs = []
        if cls.kind == "array":
            tb = const(t) if t else dval(E, args[2])
            table = [L.b1(tb, "type code")]
            if t == 5:
                table.append(L.le(cond_lin(args[1]), 4, "inlined bool"))
            elif t != 6:
                table.append(L.le(Ln - S - 5, 4, "offset"))
            if t in (3, 4):
                segs += value_segs(S_, E, cls, name, body, args, ki, keysl, strl, o)
        else:
            table = None
            segs += [L.le(keysl.len, 2, "key length"), L.copy(keysl, "key")]
            if t not in (1, 2):
                segs += [L.b1(t, "type code")] + value_segs(S_, E, cls, name, body, args, ki, keysl, strl, o)
        if raw:
            segs.append(L.copy(args[1] if isinstance(args[1], Sl) else doc_slice(E, st, args[1]), "container"))
        return table, segs
    for (table, segs), f2 in explore(E, spec, f):
        fd.cases += 1
        if table is not None:
            entry = S + C.scale(w) + 7
            ms, e = L.match_segs(E, st, f2, V, entry, table)
            for lab, txt in ms:
                fd.bad(["C03", "C08"] if lab == "offset" else ["C03"], "layout:" + label, "%s: in the value entry, %s" % (label, txt))
        ms, e = match_any(E, st, f2, V, Ln, segs)
        if name in NESTED:
            icls = inners[inner_class(name)]
            header(E, fd, st, f2, V, e, icls, cnt, label, end=False)
            start = e
            e = e + 7 + cnt.scale(icls.w)
        for lab, txt in ms:
            pr = ["C03", "C22"] if lab == "length prefix" else ["C03", "C08"] if lab == "key length" else ["C03"]
            fd.bad(pr, "layout:" + label, "%s: %s" % (label, txt))
        if not f2.entails(c_eq(V.len - e)):
            fd.bad("C03", "layout:" + label, "%s: the buffer ends at %r instead of %r" % (label, V.len, e))
        # nothing else is written
        pos = None
        for wr in V.writes:
            if wr[0] == "trunc":
                if not f2.entails(c_ge(wr[1] - Ln)):
                    fd.bad(["C03", "C10"], "stray:" + label, "%s truncates what was there before" % label)
                continue
            if wr[0] != "w":
                fd.bad(ALLP, "undecided:" + label, "%s: the buffer's content is unknown (%s)" % (label, wr[0]))
                continue
            if f2.entails(c_ge(wr[1] - Ln)):
                continue
            if cls.kind == "array":
                entry = S + C.scale(w) + 7
                if f2.entails(c_and(c_ge(wr[1] - entry), c_ge(entry + 5 - wr[1] - wr[2]))):
                    why = foreign(wr[3], S, Ln)
                    if why is not None:
                        fd.bad("C09", "content:" + label, "%s: the value entry depends on %s" % (label, why))
                    continue
                fd.bad(["C03", "C10"] if not f2.entails(c_ge(wr[1] - S)) else ["C03"], "stray:" + label, "%s writes %r bytes at %r, outside its value entry and the end of the buffer" % (label, wr[2], wr[1]))
        if cls.kind == "object":
            check_table(E, fd, cls, label, st, f2, V, C, Ln, D, rules, keysl)
    if name in NESTED:
        icls = inners[inner_class(name)]
        check_inner(E, fd, label, st, f, good, icls, start, cnt, cls)


def foreign(x, S, Ln):
    """What a written value depends on besides counts, pushed values and positions within the document."""
    if isinstance(x, Lin):
        s, l = single_atom(S), single_atom(Ln)
        if s is not None and l is not None and dict(x.t).get(s, 0) + dict(x.t).get(l, 0) != 0:
            return "where the document is in the buffer"
        for a, _ in x.t:
            why = foreign(ATOM_KEY[a], S, Ln) if a not in (s, l) else None
            if why is not None:
                return why
    elif isinstance(x, tuple):
        if x[:1] == ("capacity",):
            return "the capacity of the buffer"
        if x[:1] == ("bits",):
            x = tuple(lin_atom(b[0]) for b in x[1])
        for y in x:
            why = foreign(y, S, Ln)
            if why is not None:
                return why
    return None


def doc_slice(E, st, v):
    n = 0
    v = unwrap(v)
    while isinstance(v, Ptr) and n < 4:
        v = unwrap(E.read_cell(st, v.cell, v.path))
        n += 1
    return v


def check_table(E, fd, cls, label, st, f, V, C, Ln, D, rules, keysl):
    """The key table after a push: sorted mode appends; unsorted mode inserts at
    the place of the key."""
    S = cls.S
    low, index = [], {}
    for ix, wr in enumerate(V.writes):
        if wr[0] != "w" or f.entails(c_ge(wr[1] - Ln)):
            continue
        if low and wr[3][0] in ("le", "vals", "val") and low[-1][3][0] in ("le", "vals", "val") and wr[2].is_const() and low[-1][2].is_const() and wr[1] == low[-1][1] + low[-1][2]:
            # a field written in several pieces
            low[-1] = ("w", low[-1][1], low[-1][2] + wr[2], ("vals", ()))
        else:
            low.append(wr)
        index[low[-1]] = ix
    offs = [wr for wr in low if wr[3][0] in ("le", "vals") and wr[2] == const(4)]
    moves = [wr for wr in low if wr[3][0] == "move"]
    other = [wr for wr in low if wr not in offs and wr not in moves and not f.entails(c_eq(wr[2]))]
    if other or len(offs) != 1 or len(moves) > 1:
        fd.bad(["C03", "C10"], "table:" + label, "%s makes the writes %s to the bytes before the end of the buffer" % (label, [(repr(x[1]), repr(x[2])) for x in low][:3]))
        return
    p = quarter(offs[0][1] - S - 7)
    if p is None:
        fd.bad("C03", "table:" + label, "%s writes a key offset at %r, which is no place of the table" % (label, offs[0][1]))
        return
    ms, e = L.match_segs(E, st, f, V, offs[0][1], [L.le(Ln - S - 5, 4, "key offset")])
    for lab, txt in ms:
        fd.bad(["C03", "C08"], "table:" + label, "%s: %s" % (label, txt))
    if not f.entails(c_and(c_ge(p), c_ge(C - p))):
        fd.bad(["C03", "C12"], "table:" + label, "%s: the key offset is written to entry %r of %r" % (label, p, C))
        return
    if f.entails(c_eq(p - C)):
        if moves and not f.entails(c_eq(moves[0][2])):
            fd.bad(["C03", "C12"], "table:" + label, "%s moves %r bytes of the table for a key appended to it" % (label, moves[0][2]))
    else:
        if not moves:
            fd.bad(["C03", "C12"], "table:" + label, "%s overwrites entry %r of the table without moving it" % (label, p))
            return
        m = moves[0]
        src = m[3][1]
        if not (f.entails(c_eq(src - (S + p.scale(4) + 7))) and f.entails(c_eq(m[1] - (S + p.scale(4) + 11))) and f.entails(c_eq(m[2] - (C - p).scale(4)))):
            fd.bad(["C03", "C12"], "table:" + label, "%s moves %r bytes from %r to %r instead of the entries from %r on by one" % (label, m[2], src, m[1], p))
        if index[m] > index[offs[0]]:
            fd.bad(["C03", "C12"], "table:" + label, "%s writes the key offset before it moves the entries" % label)
    # the place
    sorted_flag = cls.sorted_flag
    if sorted_flag is not None and f.entails(sorted_flag):
        if not f.entails(c_eq(p - C)):
            fd.bad("C12", "order:" + label, "%s puts a key at entry %r although keys come sorted" % (label, p))
        return
    why = place_justified(E, D, f, p, C, rules)
    if why:
        fd.bad("C12", "order:" + label, "%s: %s" % (label, why))


def search_candidates(E, D, C, label):
    """(uid, lo, hi) of loops that search the key table, with the problems of
    each choice of bounds."""
    out = []
    for Lp in E.loops.values():
        uid = Lp.id
        if not any(keys_of_path(D, b[0].facts) for b in Lp.backs):
            continue
        leaves_ = [(i, c, n) for (_, i, c, n) in Lp.carried if isinstance(c, Lin)]
        zero = [(c + d, [y + d if isinstance(y, Lin) else None for y in n]) for i, c, n in leaves_ for d in (0, 1) if i + d == ZERO]
        zero.append((ZERO, [ZERO] * len(Lp.backs)))
        forms = list(leaves_)
        for a in range(len(leaves_)):
            for b in range(a + 1, len(leaves_)):
                x, y = leaves_[a], leaves_[b]
                forms.append((x[0] + y[0], x[1] + y[1], [p + q if isinstance(p, Lin) and isinstance(q, Lin) else None for p, q in zip(x[2], y[2])]))
        ent = Lp.entry.facts
        tops = [(c + d, [y + d if isinstance(y, Lin) else None for y in n]) for i, c, n in forms for d in (0, 1) if ent.entails(c_eq(i + d - C))]
        tops.append((C, [C] * len(Lp.backs)))
        for lo, ln in zero:
            for hi, hn in tops:
                ps = []
                for (s, _), l2, h2 in zip(Lp.backs, ln, hn):
                    key = key_arg(s.facts)
                    if l2 is None or h2 is None:
                        ps.append("the bounds of the search are not traceable")
                        continue
                    a, b = ins_bounds(D, s.facts, key, lo, hi) if key is not None else (lo, hi)
                    if not (s.facts.entails(c_ge(a - l2)) and s.facts.entails(c_ge(h2 - b))):
                        ps.append("an iteration of the search for a key's place narrows it to [%r, %r) although the comparisons made only exclude what is outside [%r, %r)" % (l2, h2, a, b))
                    elif not s.facts.entails(c_ge((l2 - lo) + (hi - h2) - 1)):
                        ps.append("an iteration of the search for a key's place may leave its bounds as they were")
                out.append((uid, lo, hi, ps))
    return out


def ins_bounds(D, facts, key, lo, hi):
    """Like excluded, for a place among equal keys."""
    ks = [(k, order(D, facts, k, key)) for k in keys_of_path(D, facts)]
    for _ in range(len(ks) + 1):
        for k, o in ks:
            if o in ("<", "=") and facts.entails(c_ge(k.i - lo)):
                lo = k.i + 1 if o == "<" else k.i
            if o in (">",) and facts.entails(c_ge(hi - k.i - 1)):
                hi = k.i
            if o == "=" and facts.entails(c_ge(hi - k.i - 1)):
                hi = k.i + 1
    return lo, hi


def place_justified(E, D, f, p, C, rules):
    from readers import uses_loop
    key = key_arg(f)
    # an equal key at the place or right before it
    if key is not None:
        for k in keys_of_path(D, f):
            if order(D, f, k, key) == "=" and (f.entails(c_eq(k.i - p)) or f.entails(c_eq(k.i + 1 - p))):
                probs = [ps for uid, lo, hi, ps in rules or []]
                return None if not probs or any(not ps for ps in probs) else min(probs, key=len)[0]
    best = None
    tries = [(uid, lo, hi, ps) for uid, lo, hi, ps in rules or [] if uses_loop(f, uid)] or [(None, ZERO, C, [])]
    for uid, lo, hi, ps in tries:
        a, b = ins_bounds(D, f, key, lo, hi) if key is not None else (lo, hi)
        if f.entails(c_ge(a - p)) and f.entails(c_ge(p - b)):
            why = ps[0] if ps else None
        else:
            why = "the key is put at entry %r although only entries below %r are known to be less and only entries from %r on to be greater" % (p, a, b)
        if why is None:
            return None
        if best is None:
            best = why
    return best


def check_finish(E, fd, cls, label, o, f, good, V, X, Ln):
    S = cls.S
    st = o.state
    r = L.vec_of(E, st, good)
    if r is None or not isinstance(V, VecV):
        fd.bad(ALLP, "undecided:" + label, "%s returns %s" % (label, show_val(E, good)))
        return
    V, off, ln = r
    if not (f.entails(c_eq(off - S)) and f.entails(c_eq(ln - (Ln - S)))):
        fd.bad(["C03", "C10"], "result:" + label, "%s returns the bytes [%r, +%r) instead of [%r, +%r)" % (label, off, ln, S, Ln - S))
    if not f.entails(c_eq(V.len - Ln)):
        fd.bad(["C03", "C09"], "result:" + label, "%s changes the length of the buffer to %r" % (label, V.len))
    ms, e = L.match_segs(E, st, f, V, S + 1, [L.le(Ln - S - 5, 4, "total size")])
    for lab, txt in ms:
        fd.bad(["C03", "C08"], "layout:" + label, "%s: %s" % (label, txt))
    for wr in V.writes:
        if wr[0] == "w" and f.entails(c_and(c_ge(wr[1] - S - 1), c_ge(S + 5 - wr[1] - wr[2]))):
            continue
        if wr[0] == "trunc" and f.entails(c_ge(wr[1] - Ln)):
            continue
        fd.bad(["C03", "C10"], "stray:" + label, "%s writes %s" % (label, repr(wr)[:120]))
    if cls.depth[-1:] == ("*",):
        d = final_depth(E, st, cls)
        if not same(f, cls.level - 1, d):
            fd.bad("C06", "depth:" + label, "%s leaves the depth at %r instead of %r, so the enclosing builder is not usable" % (label, d, cls.level - 1))


def final_depth(E, st, cls):
    p = leaves(cls.b0)[cls.depth[:-1]]
    return E.read_cell(st, p.cell, p.path)


# ------------------------------------------------------------------ inner ones
def inner_template(E, cls, st, v, pos, n, lvl):
    """A new inner builder with its parameters made anonymous."""
    obs = {}
    vec = find_vec(E, st, v)
    for p, x in leaves(v).items():
        if isinstance(x, VecV):
            obs[p] = "vec"
            continue
        if isinstance(x, Ptr):
            if (x.cell, x.path) == vec:
                obs[p] = "vec"
            else:
                obs[p] = "ptr"
                try:
                    obs[p + ("*",)] = E.read_cell(st, x.cell, x.path)
                except Exception:
                    pass
            continue
        obs[p] = x
    return obs


def make_inner(F, fd, parent, kind, name):
    """The class of inner builders, from a parent's nested push."""
    op = "push_object" if kind == "object" else "push_array"
    ms = dict((n, x) for n, x in methods(F, parent.path) if not x.get("trait"))
    if op not in ms:
        fd.bad(ALLP, "missing:%s::%s" % (parent.name, op), "%s::%s is not found in the current source" % (parent.name, op))
        return None
    E = new_engine(F)
    st, C, X, Ln = generic_state(E, parent, ("start",), parent.level)
    st.facts = st.facts.assume(c_eq(X - parent.level)).assume(c_ge(parent.N - C - 1))
    key = ms[op]["key"]
    body = E.fns[key]
    args = [Ptr(("bld",))] + [E.mk(("arg", i), body["locals"][i + 1]) for i in range(1, body["argc"])]
    outs = call(E, key, args, st)
    oks = [o for o in outs if o.kind == "ret" and ok_payload(E, o.value) is not None]
    if not oks:
        fd.bad(ALLP, "undecided:" + name, "%s::%s has no successful path" % (parent.name, op))
        return None
    o = oks[0]
    v = ok_payload(E, o.value)
    cls = Class(F, type_path(F, v.tid))
    cls.inner, cls.owned = True, False
    cls.label = "inner " + cls.name
    cls.kind = kind
    cls.w = 5 if kind == "array" else 4
    cls.code = 2 if kind == "array" else 1
    cls.S = Ln
    cls.N = typed(("arg", 1 if parent.kind == "array" else 2), 0, 65535)
    cls.level = A(("level",), 2, MAXDEPTH)
    two = parent.level + 1
    ptr0 = {c: x for c, x in o.state.mem.items() if c[0] in ("bld", "buf", "ref")}
    cls.mem0 = {}
    for c, x in ptr0.items():
        cls.mem0[("up",) + c if c == ("bld",) else c] = x
    # the parent moves out of the way
    mv = lambda x: Ptr(("up", "bld"), x.path) if isinstance(x, Ptr) and x.cell == ("bld",) else x
    cls.mem0 = {c: walk(x, lambda p, y: mv(y)) for c, x in cls.mem0.items()}
    v = walk(v, lambda p, y: mv(y))
    s2 = State()
    s2.mem = dict(cls.mem0)
    vec = find_vec(E, s2, v)
    cls.tmpl = inner_template(E, cls, s2, v, Ln, cls.N, two)
    # the level becomes a parameter
    def lv(p, x):
        return cls.level if isinstance(x, Lin) and x == two else x
    cls.b0 = walk(v, lv)
    for p, x in leaves(v).items():
        if isinstance(x, Ptr) and (x.cell, x.path) != vec:
            y = E.read_cell(s2, x.cell, x.path)
            if isinstance(y, Lin) and y == two:
                E.write_cell(s2, x.cell, x.path, cls.level)
    # the buffer right after the header
    E.write_cell(s2, vec[0], vec[1], VecV(E.u8, Ln + 7 + cls.N.scale(cls.w), None, DOC))
    cls.mem0 = dict(s2.mem)
    f = State().facts
    for c in (c_ge(Ln), c_ge(cls.level - 2), c_ge(const(MAXDEPTH) - cls.level)):
        f = f.assume(c)
    cls.facts0 = f
    cls.sorted_flag = sorted_flag(E, args, kind, 1 if parent.kind == "array" else 2)
    cls.tmplS, cls.tmplN, cls.tmplsorted, cls.tmpllvl = Ln, cls.N, cls.sorted_flag, two
    return cls


def sorted_flag(E, args, kind, i):
    if kind != "object":
        return None
    for a in args[i:]:
        if is_cond(a):
            return a
    return None


def check_inner(E, fd, label, st, f, v, icls, start, cnt, cls):
    """The inner builder a nested push returns is a new one of its class at the
    right place and level."""
    if not isinstance(v, Adt):
        fd.bad(ALLP, "undecided:" + label, "%s returns %s" % (label, show_val(E, v)))
        return
    got = inner_template(E, icls, st, v, start, cnt, cls.level + 1)
    m = {}
    a = single_atom(icls.tmplS)
    m[a] = start
    m[single_atom(icls.tmplN)] = cnt
    for p, x in icls.tmpl.items():
        y = got.get(p)
        want = x
        if isinstance(x, Lin):
            want = cls.level + 1 if x == icls.tmpllvl else x.subst(m)
        elif is_cond(x) and x == icls.tmplsorted:
            continue
        if isinstance(want, (Lin,)) or is_cond(want):
            if not same(f, want, y):
                fd.bad(["C06"] if isinstance(x, Lin) and x == icls.tmpllvl else ["C03", "C05"], "inner:" + label, "%s: the inner builder starts with a field at %r instead of %r" % (label, y, want))
        elif want != y:
            fd.bad(["C03", "C05", "C06"], "inner:" + label, "%s: the inner builder starts with a field at %r instead of %r" % (label, y, want))
    if set(got) != set(icls.tmpl):
        fd.bad(ALLP, "undecided:" + label, "%s: the inner builder has an unexpected shape" % label)


# ------------------------------------------------------------------ everything
def analyse(F):
    fd = Findings()
    classes = []
    for path in (ABUILD, AREF, OBUILD, OREF):
        cls = Class(F, path)
        cls.inner = False
        cls.label = cls.name
        if construct(F, fd, cls) is None:
            continue
        cls.sorted_flag = sorted_flag(cls.E0, [cls.E0.mk(("arg", i), cls.E0.fns[cls.key0]["locals"][i + 1]) for i in range(cls.E0.fns[cls.key0]["argc"])], cls.kind, 0)
        if learn(F, fd, cls) is None:
            continue
        classes.append(cls)
    if not classes:
        return fd
    inners = {}
    for kind in ("array", "object"):
        ic = make_inner(F, fd, classes[0], kind, "inner " + kind)
        if ic is None:
            return fd
        inners[kind] = ic
    for ic in inners.values():
        if learn(F, fd, ic) is not None:
            classes.append(ic)
    fd.classes = len(classes)
    for cls in classes:
        for name, root in methods(F, cls.path):
            if name in SCALARS or name in NESTED or name in ("finish", "push_object_or_array"):
                try:
                    check_op(F, fd, cls, name, root, inners)
                except Exception as e:
                    import traceback
                    if __debug__ and DEBUG:
                        traceback.print_exc()
                    fd.bad(ALLP, "undecided:%s::%s" % (cls.label, name), "%s::%s: %s: %s" % (cls.label, name, type(e).__name__, str(e)[:300]))
    return fd


DEBUG = False
