"""Specifications as decision trees over the terms of a path.

A specification is a function of a Sp; its branches are decided by the facts of
the path it is compared with, or explored both ways. It returns, or raises with
Ret, the expected result."""
from terms import *
from interp import Adt, Arr, Sl, Ptr, VecV, Sym, is_cond

ANYERR = ("err",)


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Sp:
    def __init__(self, E, facts, trace, splits=()):
        self.E, self.facts, self.trace, self.n, self.pending = E, facts, trace, 0, []
        # the case distinctions made on the way here
        self.splits = list(splits)

    def br(self, c):
        if c is True or c is False:
            return c
        if self.facts.entails(c):
            return True
        if self.facts.entails(c_not(c)):
            return False
        if self.n < len(self.trace):
            b = self.trace[self.n]
        else:
            b = True
            self.pending.append(self.trace + (False,) if self.n == len(self.trace) else None)
            self.trace = self.trace + (True,)
        self.n += 1
        f = self.facts.assume(c if b else c_not(c))
        if f is None or f.contradictory():
            raise Infeasible()
        self.facts = f
        self.splits.append(c if b else c_not(c))
        return b


class Infeasible(Exception):
    pass


def explore(E, spec, facts, limit=4000, splits=()):
    """All (expected, facts) of the specification under the facts."""
    for c in splits:
        facts = facts.assume(c)
        if facts is None or facts.contradictory():
            return
    todo = [()]
    n = 0
    while todo:
        tr = todo.pop()
        n += 1
        if n > limit:
            raise RuntimeError("the specification has too many cases on one path")
        s = Sp(E, facts, tr, splits)
        try:
            r = spec(s)
        except Ret as e:
            r = e.v
        except Infeasible:
            todo += [p for p in s.pending if p]
            continue
        todo += [p for p in s.pending if p]
        yield r, s.facts


# ------------------------------------------------------------------ documents
class Doc:
    """The bytes of a document: a part of a region."""
    def __init__(self, sl):
        self.region, self.off, self.len = sl.region, sl.off, sl.len

    def part(self, off, ln):
        return Sl(self.region, self.off + off, ln, None)


def need(S, D, end):
    """The document has at least end bytes, or an error is expected."""
    if not S.br(c_ge(D.len - end)):
        raise Ret(ANYERR)


def byte(S, D, pos):
    need(S, D, pos + 1)
    return A(("byte", D.region, D.off + pos), 0, 255)


def le(S, D, pos, n, signed=False):
    need(S, D, pos + n)
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    return A(("le", D.region, D.off + pos, n, signed), lo, hi)


def low_bits(b, k):
    from bits import runs
    a = single_atom(b)
    return runs(tuple((a, i) for i in range(k)))


def varint(S, D, pos):
    acc = ZERO
    for i in range(4):
        b = byte(S, D, pos + i)
        acc = acc + low_bits(b, 7).scale(1 << (7 * i))
        if S.br(c_ge(const(127) - b)):
            return acc, i + 1
    raise Ret(ANYERR)


def string(S, D, pos):
    n, k = varint(S, D, pos)
    need(S, D, pos + k + n)
    return ("slice", D.part(pos + k, n))


def number(S, D, pos):
    n = byte(S, D, pos)
    if S.br(c_eq(n)):
        raise Ret(ANYERR)
    need(S, D, pos + 1 + n)
    return ("num", D.part(pos + 1, n))


def container(S, D, pos):
    n = le(S, D, pos + 1, 4, True)
    if not S.br(c_ge(n)):
        raise Ret(ANYERR)
    need(S, D, pos + n + 5)
    return ("slice", D.part(pos, n + 5))


TYPES6 = ["Object", "Array", "String", "Number", "Bool", "Null"]


def stored_type(S, D, pos):
    b = byte(S, D, pos)
    for i in range(1, 7):
        if S.br(c_eq(b - i)):
            return i
    raise Ret(ANYERR)


def want_type(S, D, pos, w):
    """The type at pos is w, or the expected result is the error of that."""
    t = stored_type(S, D, pos)
    if t != w:
        raise Ret(("err", "UnexpectedType", [("dtype", w), ("dtype", t)]))


def payload(S, D, t, pos, in_array):
    """The value of type t whose type byte is at pos (in_array: whose entry is
    at pos)."""
    if in_array:
        if t == 5:
            return ("cond", c_eq(le(S, D, pos + 1, 4) - 1))
        if t == 6:
            return None
        p = le(S, D, pos + 1, 4) + 5
        if t in (1, 2):
            return container(S, D, p)
    else:
        p = pos + 1
        if t in (1, 2):
            return container(S, D, pos)
        if t == 5:
            return ("cond", c_eq(byte(S, D, p) - 1))
        if t == 6:
            return None
    return string(S, D, p) if t == 3 else number(S, D, p)


def as_value(t, x):
    return ("variant", TYPES6[t - 1], [] if x is None else [x])


def ok(x):
    return ("variant", "Ok", [x])


def some(x):
    return ("variant", "Some", [x])


NONE = ("variant", "None", [])


# ------------------------------------------------------------------ comparison
class Mismatch:
    def __init__(self, cat, text):
        self.cat, self.text = cat, text


def vname(E, v):
    return E.T[v.tid]["variants"][v.var]["n"]


def unwrap(v):
    while isinstance(v, Adt):
        nz = [x for x in v.f if not (isinstance(x, Adt) and not x.f)]
        if len(nz) != 1:
            return v
        v = nz[0]
    return v


def show_exp(x):
    if isinstance(x, tuple) and x and x[0] == "variant":
        return "%s(%s)" % (x[1], ", ".join(show_exp(y) for y in x[2]))
    if isinstance(x, tuple) and x and x[0] == "err":
        return "an error" if len(x) == 1 else "Err(%s(%s))" % (x[1], ", ".join(show_exp(y) for y in x[2]))
    if isinstance(x, tuple) and x and x[0] == "cond":
        return show_cond(x[1])
    if isinstance(x, tuple) and x and x[0] == "dtype":
        return TYPES6[x[1] - 1]
    return repr(x)[:300]


def match(E, st, v, exp, facts):
    """None if v is the expected value, or the mismatch."""
    k = exp[0]
    if k == "any":
        return None
    n_is_err = isinstance(v, Adt) and E.T[v.tid]["k"] == "adt" and vname(E, v) == "Err"
    if k == "err":
        if not (isinstance(v, Adt) and vname(E, v) == "Err"):
            return Mismatch("type" if len(exp) > 1 and n_is_err else "both", "returns %s where %s is due" % (show_val(E, v), show_exp(exp)))
        if len(exp) == 1:
            return None
        e = v.f[0]
        if not isinstance(e, Adt) or vname(E, e) != exp[1]:
            return Mismatch("type", "returns %s where %s is due" % (show_val(E, v), show_exp(exp)))
        for x, y in zip(e.f, exp[2]):
            m = match(E, st, x, y, facts)
            if m:
                return Mismatch("type", "error with %s" % m.text)
        return None
    if k == "variant":
        if not isinstance(v, Adt) or E.T[v.tid]["k"] != "adt":
            return Mismatch("pos", "returns %s where %s is due" % (show_val(E, v), show_exp(exp)))
        n = vname(E, v)
        if n != exp[1]:
            cat = "pos"
            if n == "Err" and isinstance(v.f[0], Adt) and vname(E, v.f[0]) in ("UnexpectedType", "InvalidDataType"):
                cat = "type"
            elif n in TYPES6 and exp[1] in TYPES6 or "Err" in (n, exp[1]):
                cat = "both"
            elif "None" in (n, exp[1]):
                cat = "lookup"
            return Mismatch(cat, "returns %s where %s is due" % (show_val(E, v), show_exp(exp)))
        for x, y in zip(v.f, exp[2]):
            m = match(E, st, x, y, facts)
            if m:
                return m
        return None
    if k == "slice":
        s = unwrap(v)
        if isinstance(s, Ptr):
            try:
                s = unwrap(E.read_cell(st, s.cell, s.path))
            except Exception:
                pass
        w = exp[1]
        if not isinstance(s, Sl) or s.region != w.region:
            return Mismatch("pos", "refers to %s instead of bytes %r" % (show_val(E, v), w))
        if not facts.entails(c_eq(s.off - w.off)):
            return Mismatch("pos", "starts at %r instead of %r" % (s.off, w.off))
        if not facts.entails(c_eq(s.len - w.len)):
            return Mismatch("pos", "has length %r instead of %r" % (s.len, w.len))
        return None
    if k == "num":
        v = unwrap(v)
        if isinstance(v, Sym) and v.term[0] == "pure" and v.term[1].endswith("Decimal::decode"):
            return match(E, st, v.term[3][0], ("slice", exp[1]), facts)
        return Mismatch("pos", "is %s instead of the number decoded from %r" % (show_val(E, v), exp[1]))
    if k == "cond":
        if not is_cond(v):
            return Mismatch("both", "is %s instead of a truth value" % show_val(E, v))
        c = exp[1]
        a = facts.assume(c)
        b = facts.assume(c_not(c))
        if a is not None and not a.entails(v):
            return Mismatch("both", "is not true (%s) although %s" % (show_cond(v), show_cond(c)))
        if b is not None and not b.entails(c_not(v)):
            return Mismatch("both", "is not false (%s) although not %s" % (show_cond(v), show_cond(c)))
        return None
    if k == "int":
        if not isinstance(v, Lin) or not facts.entails(c_eq(v - exp[1])):
            return Mismatch("pos", "is %s instead of %r" % (show_val(E, v), exp[1]))
        return None
    if k == "dtype":
        w = exp[1]
        d = None
        if isinstance(v, Adt):
            d = const(E.T[v.tid]["variants"][v.var]["d"])
        elif isinstance(v, Sym):
            d = v.term[1] if v.term[0] == "ofdiscr" else A(("discr", v.term), 1, 6)
        elif isinstance(v, Lin):
            d = v
        if d is None or not facts.entails(c_eq(d - w)):
            return Mismatch("both", "is type %s instead of %s" % (show_val(E, v), w if not isinstance(w, int) else TYPES6[w - 1]))
        return None
    if k == "tuple":
        for x, y in zip(v.f, exp[1]):
            m = match(E, st, x, y, facts)
            if m:
                return m
        return None
    if k == "pred":
        return exp[1](E, st, v, facts)
    raise ValueError(exp)


def show_val(E, v):
    if isinstance(v, Adt):
        t = E.T[v.tid]
        n = t["variants"][v.var]["n"] if t["k"] == "adt" and t.get("variants") else "tuple"
        return "%s(%s)" % (n, ", ".join(show_val(E, x) for x in v.f)) if v.f else n
    if is_cond(v):
        return show_cond(v)
    return repr(v)[:200]


def compare(E, outs, spec, on_ok, on_bad, value=lambda o: o.value):
    """Compares every path with every case of the specification."""
    n = 0
    for o in outs:
        if o.kind != "ret":
            continue
        for exp, f in explore(E, lambda S: spec(S, o), o.state.facts):
            n += 1
            m = match(E, o.state, value(o), exp, f)
            if m is None:
                on_ok(o, exp)
            else:
                on_bad(o, exp, m)
    return n
