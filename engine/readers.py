"""The read interface compared with the published layout: the analysis shared by
the properties about reading (C01, C02, C04, C27 and the number reader)."""
from terms import *
from spec import *
import interp
import models


def find_root(F, path):
    """The root function with this path suffix, generic or not."""
    r = [x for x in F["roots"] if x["path"] == path or x["key"] == path or x["key"].split("#")[0].split("::<T>")[0] == path]
    return r[0]["key"] if r else None


def root_like(F, ty, name, trait=None):
    """Roots whose implementing type is ty and whose method is name."""
    out = []
    for x in F["roots"]:
        k = x["key"]
        p = k.split("#")[0]
        if trait:
            if p.startswith("<" + ty) and (" as " + trait) in p and p.endswith("::" + name):
                out.append(k)
        else:
            for g in ("", "::<'_>", "::<T>", "::<'_>::<T>"):
                pass
            import re
            q = re.sub(r"::<[^<>]*>", "", p)
            if q == ty + "::" + name:
                out.append(k)
    return out


class Result:
    """What the analysis of one entry point found."""
    def __init__(self, name, key):
        self.name, self.key = name, key
        self.cases = 0
        self.mism = []        # (cat, text)
        self.panics = []
        self.unsup = []
        self.obl = []
        self.outs = []
        self.E = None


def doc_of(E, st, v):
    """The document a &Yason / &Array / &Object argument stands for."""
    v = unwrap(v)
    n = 0
    while isinstance(v, Ptr) and n < 4:
        v = unwrap(E.read_cell(st, v.cell, v.path))
        n += 1
    if isinstance(v, Sl):
        return Doc(v)
    raise interp.Unsupported("argument %r is not a document" % (v,))


def run_root(F, key, max_states=60000, prep=None):
    E = interp.Engine(F, models, max_states=max_states)
    body = E.fns[key]
    args = [E.mk(("arg", i), body["locals"][i + 1]) for i in range(body["argc"])]
    st = E.start(key, args)
    if prep:
        prep(E, st, args)
    outs = E.run(st)
    return E, args, outs


def short(key):
    return key.split("#")[0]


def collect(r, E, outs):
    r.E = E
    r.outs = outs
    for o in outs:
        if o.kind == "panic":
            r.panics.append("%s at %s (via %s)" % (o.msg, o.span.split(":")[0], " > ".join(o.stack[-2:])))
        elif o.kind == "unsupported":
            r.unsup.append("%s (in %s)" % (o.msg, o.stack[-1] if o.stack else "?"))
    for ok_, what, span, stack, cond, st in E.obligations:
        if not ok_:
            r.obl.append("%s: not proven in %s (%s)" % (what, " > ".join(stack[-2:]), cond[:200]))
    for n in E.unmodelled:
        r.unsup.append("call of %s is not modelled" % n)


def analyse(F, key, spec, name=None):
    """Compares an entry point with its specification."""
    r = Result(name or short(key), key)
    E, args, outs = run_root(F, key)
    collect(r, E, outs)

    def bad(o, exp, m):
        r.mism.append((m.cat, m.text))
    r.cases = compare(E, outs, lambda S, o: spec(S, E, o.state, args), lambda o, e: None, bad)
    return r


# ------------------------------------------------------------------ specifications
def with_doc(f):
    def g(S, E, st, args):
        return f(S, doc_of(E, st, args[0]), args)
    return g


def count(S, D):
    return le(S, D, const(5), 2)


def sp_data_type(S, D, args):
    return ok(("dtype", stored_type(S, D, ZERO)))


def sp_typed(t, in_val=True):
    def f(S, D, args):
        want_type(S, D, ZERO, t)
        if t in (1, 2):
            return ok(("slice", D.part(ZERO, D.len)))
        return ok(payload(S, D, t, ZERO, False))
    return f


def sp_value(S, D, args):
    t = stored_type(S, D, ZERO)
    if t in (1, 2):
        return ok(as_value(t, ("slice", D.part(ZERO, D.len))))
    return ok(as_value(t, payload(S, D, t, ZERO, False)))


def sp_is_null(S, D, args):
    return ok(("cond", c_eq(byte(S, D, ZERO) - 6)))


def sp_len(S, D, args):
    return ok(("int", count(S, D)))


def sp_empty(S, D, args):
    return ok(("cond", c_eq(count(S, D))))


def sp_self(S, D, args):
    return ("slice", D.part(ZERO, D.len))


def entry(S, D, i):
    n = count(S, D)
    if not S.br(c_ge(n - i - 1)):
        raise Ret(ANYERR)
    return i.scale(5) + 7


def sp_arr_typed(t):
    def f(S, D, args):
        p = entry(S, D, args[1])
        want_type(S, D, p, t)
        return ok(payload(S, D, t, p, True))
    return f


def sp_arr_get(S, D, args):
    p = entry(S, D, args[1])
    t = stored_type(S, D, p)
    return ok(as_value(t, payload(S, D, t, p, True)))


def sp_arr_type_of(S, D, args):
    return ok(("dtype", stored_type(S, D, entry(S, D, args[1]))))


def sp_arr_is_type(S, D, args):
    p = entry(S, D, args[1])
    b = byte(S, D, p)
    w = args[2] if len(args) > 2 else None
    return ok(("cond", c_eq(b - dval(S.E, w)))) if w is not None else ok(("cond", c_eq(b - 6)))


def dval(E, v):
    """The type code of a DataType argument."""
    if isinstance(v, Adt):
        return const(E.T[v.tid]["variants"][v.var]["d"])
    return A(("discr", v.term), 1, 6)


YASON = "yason::yason::Yason"
ARRAY = "yason::yason::array::Array"
OBJECT = "yason::yason::object::Object"

SIMPLE = [
    (YASON, "data_type", sp_data_type),
    (YASON, "object", sp_typed(1)), (YASON, "array", sp_typed(2)), (YASON, "string", sp_typed(3)),
    (YASON, "number", sp_typed(4)), (YASON, "bool", sp_typed(5)), (YASON, "is_null", sp_is_null),
    (YASON, "as_bytes", sp_self),
    (ARRAY, "len", sp_len), (ARRAY, "is_empty", sp_empty), (ARRAY, "yason", sp_self),
    (ARRAY, "get", sp_arr_get), (ARRAY, "type_of", sp_arr_type_of), (ARRAY, "is_type", sp_arr_is_type),
    (ARRAY, "is_null", sp_arr_is_type),
    (ARRAY, "object", sp_arr_typed(1)), (ARRAY, "array", sp_arr_typed(2)), (ARRAY, "string", sp_arr_typed(3)),
    (ARRAY, "number", sp_arr_typed(4)), (ARRAY, "bool", sp_arr_typed(5)),
    (OBJECT, "len", sp_len), (OBJECT, "is_empty", sp_empty), (OBJECT, "yason", sp_self),
]
SIMPLE_T = [("yason::yason::Value", "try_from", "core::convert::TryFrom", sp_value)]


# ------------------------------------------------------------------ key lookup
def fact_atoms(facts):
    out = set()
    for c in facts.all():
        cond_atoms(c, out)
    for c in facts.ors:
        cond_atoms(c, out)
    out |= set(facts.doms)
    return out


def quarter(l):
    """l / 4 if l is a multiple of 4 term by term."""
    if l.c % 4 or any(k % 4 for _, k in l.t):
        return None
    return Lin(l.c // 4, tuple((a, k // 4) for a, k in l.t))


def table_index(D, l):
    """The i for which l is the key offset in entry i of the table."""
    a = single_atom(l)
    if a is None:
        return None
    k = ATOM_KEY[a]
    if isinstance(k, tuple) and k[0] == "le" and k[1] == D.region and k[3] == 4:
        return quarter(k[2] - D.off - 7)
    return None


class Key:
    """Entry i of an object's key table, as far as a path has read it."""
    def __init__(self, D, i):
        self.i = i
        self.off = A(("le", D.region, D.off + i.scale(4) + 7, 4, False), 0, (1 << 32) - 1)
        self.klen = A(("le", D.region, D.off + self.off + 5, 2, False), 0, 65535)
        self.start = self.off + 7
        self.value = self.start + self.klen


def keys_of_path(D, facts):
    """The table entries whose key length the path has read."""
    out = []
    for a in sorted(fact_atoms(facts)):
        seen = [ATOM_KEY[a]]
        if isinstance(seen[0], tuple) and seen[0][0] == "strcmp":
            for c in seen[0][1:]:
                if c[0] == D.region:
                    i = table_index(D, c[1] - D.off - 7)
                    if i is not None and all(i != k.i for k in out):
                        out.append(Key(D, i))
        k = seen[0]
        if isinstance(k, tuple) and k[0] == "le" and k[1] == D.region and k[3] == 2:
            i = table_index(D, k[2] - D.off - 5)
            if i is not None and all(i != x.i for x in out):
                out.append(Key(D, i))
    return out


def order(D, facts, k, key):
    """How the path has found entry k to compare with the key: '<', '>', '=',
    '!' (different) or None."""
    kl, n = k.klen, key.len
    if facts.entails(c_ge(n - kl - 1)):
        return "<"
    if facts.entails(c_ge(kl - n - 1)):
        return ">"
    for a in sorted(fact_atoms(facts)):
        x = ATOM_KEY[a]
        if not (isinstance(x, tuple) and x[0] == "strcmp"):
            continue
        for sign, p, q in ((1, x[1], x[2]), (-1, x[2], x[1])):
            if p[0] == D.region and facts.entails(c_eq(p[1] - D.off - k.start)) and q[0] == key.region and q[1] == key.off:
                s = lin_atom(a).scale(sign)
                eqlen = facts.entails(c_eq(kl - n))
                if not (facts.entails(c_eq(p[2] - kl)) and facts.entails(c_eq(q[2] - n))):
                    continue
                if facts.entails(c_eq(s)):
                    return "="
                if eqlen and facts.entails(c_ge(-s - 1)):
                    return "<"
                if eqlen and facts.entails(c_ge(s - 1)):
                    return ">"
                if facts.entails(c_ne(s)):
                    return "!"
    if facts.entails(c_ne(kl - n)):
        return "!"
    return None


def found_entry(D, facts, key, n):
    for k in keys_of_path(D, facts):
        if order(D, facts, k, key) == "=" and facts.entails(c_and(c_ge(k.i), c_ge(n - k.i - 1))):
            return k
    return None


def key_arg(facts):
    """The bytes of the key argument, as the path has looked at them."""
    for a in sorted(fact_atoms(facts)):
        k = ATOM_KEY[a]
        if isinstance(k, tuple) and k[0] == "strcmp":
            for c in k[1:]:
                if isinstance(c[0], tuple) and c[0][0] == "sym" and isinstance(c[0][1], tuple) and c[0][1][0] == "as_ref":
                    return Sl(c[0], c[1], c[2], None)
    for a in sorted(fact_atoms(facts)):
        k = ATOM_KEY[a]
        if isinstance(k, tuple) and k[0] == "len" and isinstance(k[1], tuple) and k[1][0] == "as_ref":
            return Sl(("sym", k[1]), ZERO, lin_atom(a), None)
    return None


def unreadable(D, facts, n):
    """Whether the path shows that some entry of the table is not inside the
    document."""
    cands = keys_of_path(D, facts)
    ln = single_atom(D.len)
    idx = [k.i for k in cands]
    for l in facts.ges:
        d = dict(l.t)
        if ln is not None and d.get(ln) == -1:
            i = quarter(l + D.len + 1 - 11)
            if i is not None:
                idx.append(i)
            # offset already read, length field or key outside
            for a, _ in l.t:
                j = table_index(D, lin_atom(a))
                if j is not None:
                    idx.append(j)
    for i in idx:
        k = Key(D, i)
        whole = c_and(c_ge(D.len - i.scale(4) - 11), c_and(c_ge(D.len - k.off - 7), c_ge(D.len - k.value)))
        if facts.entails(c_not(whole)) and facts.entails(c_and(c_ge(i), c_ge(n - i - 1))):
            return True
    return False


def sp_obj(kind, t=None):
    """Access by key: kind is get, type, typed, is_type, is_null or contains."""
    def f(S, D, args):
        n = count(S, D)
        key = key_arg(S.facts)
        k = found_entry(D, S.facts, key, n) if key is not None else None
        if k is None:
            raise Ret(("pred", lambda E, st, v, facts: not_found(E, D, v, facts, n, kind)))
        need(S, D, k.value)
        if kind == "contains":
            return ok(("cond", True))
        if kind == "typed":
            want_type(S, D, k.value, t)
            return ok(some(payload(S, D, t, k.value, False)))
        if kind in ("is_type", "is_null"):
            b = byte(S, D, k.value)
            return ok(some(("cond", c_eq(b - (dval(S.E, args[2]) if kind == "is_type" else 6)))))
        x = stored_type(S, D, k.value)
        if kind == "type":
            return ok(some(("dtype", x)))
        if kind == "lazy":
            return ok(some(("pred", lambda E, st, v, facts: same_lazy(E, st, v, D, x, k.value, False, facts))))
        return ok(some(as_value(x, payload(S, D, x, k.value, False))))
    return f


def same_lazy(E, st, v, D, t, pos, in_array, facts):
    """v stands for the value of type t at pos of the document."""
    import api
    y, ty, p, ina = api.lv_parts(E, st, v)
    if y is None or y.region != D.region or not facts.entails(c_eq(y.off - D.off)) or not facts.entails(c_eq(p - pos)) or ina != in_array:
        return Mismatch("pos", "refers to another value than the one at %r" % (pos,))
    if not facts.entails(c_eq(api.dtype_of(E, ty) - t)):
        return Mismatch("type", "carries another type than the stored one")
    return None


LAZY = {"object": 1, "array": 2, "string": 3, "number": 4, "bool": 5, "value": None}


def lazy_values(F):
    """The accessors of values that are read on demand: (name, analysis)."""
    import re
    import api
    out = []
    for k in sorted(F["fns"]):
        m = re.match(r"yason::yason::LazyValue::<[^<>]*, (true|false)>::(\w+)$", k)
        if not m or m.group(2) not in LAZY:
            continue
        out.append(("LazyValue<%s>::%s" % m.groups(), k, lazy_run(F, k, m.group(1) == "true", LAZY[m.group(2)])))
    return out


def lazy_run(F, k, ina, want):
    import api

    def go():
        r = Result("LazyValue<%s>::%s" % ("true" if ina else "false", k.rsplit("::", 1)[1]), k)
        box = {}

        def prep(E, st, args):
            y, ty, pos, _ = api.lv_parts(E, st, args[0])
            box["v"] = (y, ty, pos)
            f = st.facts.assume(c_ge(y.len - pos - 1))
            d = api.dtype_of(E, ty)
            if want:
                f = f.assume(c_eq(d - want))
            st.facts = f
        E, args, outs = run_root(F, k, prep=prep)
        collect(r, E, outs)
        y, ty, pos = box["v"]
        D = Doc(y)

        def spec(S, o):
            if want:
                return ok(payload(S, D, want, pos, ina))
            d = api.dtype_of(E, ty)
            for i in range(1, 7):
                if i == 6 or S.br(c_eq(d - i)):
                    return ok(as_value(i, payload(S, D, i, pos, ina)))

        r.cases = compare(E, outs, spec, lambda o, e: None, lambda o, e, m: r.mism.append((m.cat, m.text)))
        return r
    return go


def not_found(E, D, v, facts, n, kind):
    if isinstance(v, Adt) and vname(E, v) == "Err":
        if unreadable(D, facts, n):
            return None
        return Mismatch("lookup", "fails on a path that has not shown an entry of the key table to be unreadable")
    if isinstance(v, Adt) and vname(E, v) == "Ok":
        x = v.f[0]
        if kind == "contains":
            if x is False or (is_cond(x) and facts.entails(c_not(x))):
                return None
            return Mismatch("lookup", "reports a key as present without having found it equal to a stored key")
        if isinstance(x, Adt) and vname(E, x) == "None":
            return None
        return Mismatch("lookup", "returns %s without having found an equal stored key" % show_val(E, v))
    return Mismatch("lookup", "returns %s" % show_val(E, v))


def reports_absent(E, v, kind):
    if not (isinstance(v, Adt) and vname(E, v) == "Ok"):
        return False
    x = v.f[0]
    return x is False if kind == "contains" else isinstance(x, Adt) and vname(E, x) == "None"


OBJ = [("get", "get", None), ("type_of", "type", None), ("is_type", "is_type", None), ("is_null", "is_null", None),
       ("contains_key", "contains", None), ("object", "typed", 1), ("array", "typed", 2), ("string", "typed", 3),
       ("number", "typed", 4), ("bool", "typed", 5)]


# ------------------------------------------------------------------ the search
def excluded(D, facts, key, lo, hi):
    """How far the comparisons of a path narrow the interval [lo, hi)."""
    ks = [(k, order(D, facts, k, key)) for k in keys_of_path(D, facts)]
    ks = [(k, o) for k, o in ks if o is not None]
    for _ in range(len(ks) + 1):
        for k, o in ks:
            if o == "<" and facts.entails(c_ge(k.i - lo)) or o == "!" and facts.entails(c_eq(k.i - lo)):
                lo = k.i + 1
            elif o == "=" and facts.entails(c_ge(k.i - lo)):
                lo = k.i
            if o == ">" and facts.entails(c_ge(hi - k.i - 1)):
                hi = k.i
            elif o == "!" and facts.entails(c_eq(k.i + 1 - hi)):
                hi = k.i
            elif o == "=" and facts.entails(c_ge(hi - k.i - 1)):
                hi = k.i + 1
    return lo, hi


def search_rule(E, D, outs, kind):
    """Shows that the search for a key only ever discards entries that compare
    unequal, ends, and reports absence only when no entry is left.
    Returns (obligations, problems)."""
    probs = []
    nobl = 0
    n = A(("le", D.region, D.off + 5, 2, False), 0, 65535)
    loops = []
    for L in E.loops.values():
        uid = L.id
        if any(key_arg(b[0].facts) is not None and keys_of_path(D, b[0].facts) for b in L.backs):
            loops.append((uid, L))
    absent = [o for o in outs if o.kind == "ret" and reports_absent(E, o.value, kind)]
    if not absent:
        probs.append("no path reports an absent key as absent")

    def interval_empty(facts, lo, hi):
        key = key_arg(facts)
        if key is not None:
            lo, hi = excluded(D, facts, key, lo, hi)
        return facts.entails(c_ge(lo - hi))

    best = None
    if not loops:
        best = [], 0, (ZERO, n)
        for o in absent:
            nobl += 1
            if not interval_empty(o.state.facts, ZERO, n):
                probs.append("reports absence although entries have not been compared")
        return nobl, probs
    for uid, L in loops:
        leaves = [(init, cur, nxt) for (loc, init, cur, nxt) in L.carried if isinstance(cur, Lin)]
        f0 = [b[0].facts for b in L.backs]
        zero = []
        for x in leaves:
            for d in (0, 1):
                if x[1] is not None and x[0] + d == ZERO:
                    zero.append((x[1] + d, [y + d if isinstance(y, Lin) else None for y in x[2]]))
        zero.append((ZERO, [ZERO] * len(L.backs)))
        tops = []
        forms = [(x[0], x[1], x[2]) for x in leaves]
        for a in range(len(leaves)):
            for b in range(a + 1, len(leaves)):
                x, y = leaves[a], leaves[b]
                forms.append((x[0] + y[0], x[1] + y[1], [p + q if isinstance(p, Lin) and isinstance(q, Lin) else None for p, q in zip(x[2], y[2])]))
        for x in forms:
            for d in (0, 1):
                if x[0] + d == n:
                    tops.append((x[1] + d, [y + d if isinstance(y, Lin) else None for y in x[2]]))
        tops.append((n, [n] * len(L.backs)))
        for lo, lnext in zero:
            for hi, hnext in tops:
                ps = []
                m = 0
                for (st, _), l2, h2 in zip(L.backs, lnext, hnext):
                    f = st.facts
                    m += 1
                    if l2 is None or h2 is None:
                        ps.append("the bounds of the search are not traceable")
                        continue
                    key = key_arg(f)
                    a, b = excluded(D, f, key, lo, hi) if key is not None else (lo, hi)
                    if not (f.entails(c_ge(a - l2)) and f.entails(c_ge(h2 - b))):
                        ps.append("an iteration of the search narrows it to [%r, %r) although the comparisons made only exclude what is outside [%r, %r)" % (l2, h2, a, b))
                    elif not f.entails(c_ge((l2 - lo) + (hi - h2) - 1)):
                        ps.append("an iteration of the search may leave its bounds as they were")
                for o in absent:
                    f = o.state.facts
                    m += 1
                    if uses_loop(f, uid):
                        if not interval_empty(f, lo, hi):
                            ps.append("reports absence while entries [%r, %r) have not been excluded" % (lo, hi))
                    elif not interval_empty(f, ZERO, n):
                        ps.append("reports absence although entries have not been compared")
                if best is None or len(ps) < len(best[0]):
                    best = ps, m, (lo, hi)
    return best[1], probs + best[0]


def uses_loop(facts, uid):
    for a in fact_atoms(facts):
        if atom_uses(ATOM_KEY[a], uid):
            return True
    return False


def atom_uses(k, uid):
    if isinstance(k, tuple):
        if len(k) > 1 and k[0] == "lv" and k[1] == uid:
            return True
        return any(atom_uses(x, uid) for x in k)
    if isinstance(k, Lin):
        return any(atom_uses(ATOM_KEY[a], uid) for a, _ in k.t)
    return False


# ------------------------------------------------------------------ iterators
def sp_item(kind):
    """Item i of an iterator."""
    def value(S, D, p, in_array):
        t = stored_type(S, D, p)
        return as_value(t, payload(S, D, t, p, in_array))

    def f(S, D, i):
        if kind == "elem":
            return value(S, D, i.scale(5) + 7, True)
        off = le(S, D, i.scale(4) + 7, 4)
        klen = le(S, D, off + 5, 2)
        start = off + 7
        if kind != "value":
            need(S, D, start + klen)
            key = ("slice", D.part(start, klen))
            if kind == "key":
                return key
            return ("tuple", [key, value(S, D, start + klen, False)])
        return value(S, D, start + klen, False)
    return f


def as_result(f):
    try:
        return ok(f())
    except Ret as e:
        return e.v


ITERS = [(ARRAY, "iter", "elem"), (OBJECT, "iter", "entry"), (OBJECT, "key_iter", "key"), (OBJECT, "value_iter", "value")]


def iterator(F, ctor, kind):
    """Drives the iterator a constructor returns to its end, and once more."""
    import harness
    r = Result(short(ctor), ctor)
    E = interp.Engine(F, models)
    body = E.fns[ctor]
    args = [E.mk(("arg", i), body["locals"][i + 1]) for i in range(body["argc"])]
    D = None
    n_some = n_none = 0
    outs0 = E.run(E.start(ctor, args))
    collect(r, E, outs0)
    spec0 = lambda S, o: (count(S, doc_of(E, o.state, args[0])), ("any",))[1]
    for o in outs0:
        if o.kind != "ret":
            continue
        D = doc_of(E, o.state, args[0])
        if vname(E, o.value) == "Err":
            for exp, f in explore(E, lambda S: spec0(S, o), o.state.facts):
                r.cases += 1
                if exp != ANYERR:
                    r.mism.append(("pos", "the iterator cannot be made although the element count can be read"))
            continue
        it = o.value.f[0]
        if not isinstance(it, interp.Adt):
            r.unsup.append("the iterator is %s" % show_val(E, it))
            continue
        name = TYPE_PATH(F, it.tid)
        nk = [x["key"] for x in F["roots"] if x.get("trait") == "core::iter::traits::iterator::Iterator" and x["name"] == "next" and F["types"][x["self_ty"]].get("path") == name]
        if len(nk) != 1:
            r.unsup.append("no implementation of Iterator::next for %s" % name)
            continue
        nb = F["fns"][nk[0]]
        optid = nb["locals"][0]
        H = harness.Harness(F, [it.tid])
        k = H.local(H.tid("usize"))
        rf = H.local(nb["locals"][1])
        item = H.local(optid)
        keep = H.local(nb["locals"][1])
        d = H.local(H.tid("isize"))
        rf2 = H.local(nb["locals"][1])
        again = H.local(optid)
        b = [H.block() for _ in range(7)]
        H.at(b[0]).use(k, 0)
        H.ref(keep, item)
        H.goto(b[1])
        H.at(b[1]).ref(rf, 1)
        H.call(item, nk[0], [("m", rf)], b[2])
        H.at(b[2]).set(d, ["discr", [item]])
        H.switch(("m", d), [(0, b[4])], b[3])
        H.at(b[3]).set(k, ["gadd", H.op(("c", k)), H.op(1)])
        H.goto(b[1])
        H.at(b[4]).ref(rf2, 1)
        H.call(again, nk[0], [("m", rf2)], b[5])
        H.at(b[5]).set(0, ["agg", ["tuple"], [H.op(("m", again)), H.op(("c", k))]])
        H.term(["return"])
        hk = H.finish()
        E.nounroll.add((hk, b[1]))
        st = o.state.copy()
        st.frames = ()
        n = A(("le", D.region, D.off + 5, 2, False), 0, 65535)
        fid = st.nfid
        mark = len(E.obligations)
        outs = E.run(E.start(hk, [it], st))
        collect(r, E, outs)
        L = [x for x in E.loops.values() if x.fn == hk]
        if len(L) != 1:
            r.unsup.append("the iteration is not a single loop")
            continue
        L = L[0]
        kv = [x for x in L.carried if x[0] == ((fid, k),)]
        for st2, _ in L.backs:
            kk = kv[0][2] if kv else ZERO
            f2 = st2.facts
            if not kv:
                r.mism.append(("pos", "an iteration yields nothing"))
                continue
            if not f2.entails(c_ge(n - kk - 1)):
                r.mism.append(("pos", "yields an element although all %r stored elements may have been yielded already" % n))
                continue
            v = st2.mem[(fid, item)]
            if isinstance(v, interp.Sym):
                r.mism.append(("pos", "yields an item that cannot be traced"))
                continue
            v2 = v.f[0]
            # the iterator's own counter, where it is tied to the number yielded
            for x in L.carried:
                if x[0] == ((fid, k),) or not isinstance(x[2], Lin):
                    continue
                own = [c for c in (x[2], n - x[2], x[2] + 1, x[2] - 1, n - x[2] - 1) if f2.entails(c_eq(c - kk))]
                if own:
                    kk = own[0]
                    break
            for exp, f in explore(E, lambda S: as_result(lambda: sp_item(kind)(S, D, kk)), f2):
                r.cases += 1
                n_some += 1
                m = match(E, st2, v2, exp, f)
                if m:
                    r.mism.append((m.cat, "item %s: %s" % ("i", m.text)))
        for x in outs:
            if x.kind == "ret":
                r.cases += 1
                n_none += 1
                if not x.state.facts.entails(c_eq(x.value.f[1] - n)):
                    r.mism.append(("pos", "ends after %r elements although %r are stored" % (x.value.f[1], n)))
                a = x.value.f[0]
                if not (isinstance(a, interp.Adt) and vname(E, a) == "None"):
                    r.mism.append(("pos", "yields again after its end"))
    r.some, r.none = n_some, n_none
    return r


def TYPE_PATH(F, tid):
    return F["types"][tid].get("path")
