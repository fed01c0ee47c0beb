"""C13: equality of documents."""
from terms import *
from spec import *
from api import *
from check_query import groups_from, ret_case, justified, fails_of
import interp
import models
from interp import is_cond


class EqApi(Api):
    """Comparing two values is an event whose result says whether they are
    equal."""
    def recursion(self, E, st, callee, args, dest, target):
        lv = [a for a in args if is_lv_arg(E, st, a)]
        if len(lv) != 2:
            return Api.recursion(self, E, st, callee, args, dest, target)
        n = self.fresh(st)
        a, b = (node(E, st, x) for x in lv)
        rt = dest[3]
        s = st.copy()
        e = E.mk(("recerr", n), payload_tid(E, rt, "Err"))
        s.emit(("act", "equals", a, b, n, False))
        s.emit(("fail", e))
        out = E.finish_call(s, dest, target, variant(E, rt, "Err", [e]))
        st.emit(("act", "equals", a, b, n, True))
        return out + E.finish_call(st, dest, target, variant(E, rt, "Ok", [c_atom(("equal", n))]))


def is_lv_arg(E, st, v):
    n = 0
    while isinstance(v, Ptr) and n < 3:
        v = E.read_cell(st, v.cell, v.path)
        n += 1
    return is_lv(E, v)


EQUALS = "yason::yason::Yason::equals"


class Pair:
    """Two values under comparison."""
    def __init__(self, l, r):
        self.n = (l, r)
        self.D = (Doc(doc_slice(l)), Doc(doc_slice(r)))

    def count(self, k):
        D = self.D[k]
        return A(("le", D.region, D.off + 5, 2, False), 0, 65535)

    def child(self, k, t, i):
        D = self.D[k]
        if t == 2:
            return mk_node(D.region, i.scale(5) + 7, True)
        s, n = self.key(k, i)
        return mk_node(D.region, s + n, False)

    def key(self, k, i):
        D = self.D[k]
        off = A(("le", D.region, i.scale(4) + 7, 4, False), 0, (1 << 32) - 1)
        return off + 7, A(("le", D.region, off + 5, 2, False), 0, 65535)

    def children(self, facts, t, i, a, b):
        """Whether a and b are the children of index i of the two."""
        x, y = self.child(0, t, i), self.child(1, t, i)
        return node_eq(facts, x, a) and node_eq(facts, y, b) or node_eq(facts, x, b) and node_eq(facts, y, a)

    def keys(self, facts, i):
        """'=' or '!' if the path has compared the keys of index i."""
        from readers import fact_atoms
        for a in sorted(fact_atoms(facts)):
            x = ATOM_KEY[a]
            if not (isinstance(x, tuple) and x[0] == "strcmp"):
                continue
            for p, q in ((x[1], x[2]), (x[2], x[1])):
                if not (self.is_key(facts, 0, i, p) and self.is_key(facts, 1, i, q)):
                    continue
                c = c_and(c_eq(p[2] - q[2]), c_eq(lin_atom(a)))
                if facts.entails(c):
                    return "="
                if facts.entails(c_not(c)):
                    return "!"
        # lengths alone
        l, r = self.key(0, i)[1], self.key(1, i)[1]
        return "!" if facts.entails(c_ne(l - r)) else None

    def is_key(self, facts, k, i, c):
        s, n = self.key(k, i)
        return region_eq(facts, c[0], self.D[k].region) and lin_same(facts, c[1], s) and lin_same(facts, c[2], n)


def compared(log, P, facts, t, i):
    """The comparisons on this path of the children of index i."""
    return [c_atom(("equal", e[4])) for e in log if e[0] == "act" and e[1] == "equals" and e[-1] and P.children(facts, t, i, e[2], e[3])]


def continues_rightly(E, P, t, L, f):
    """Whether every iteration of a loop that goes on has found index f equal."""
    for s, lg in L.backs:
        F = s.facts
        if not F.entails(c_and(c_ge(f), c_ge(P.count(0) - 1 - f))):
            return "an iteration is not known to stay inside the containers"
        if not any(F.entails(c) for c in compared(lg, P, F, t, f)):
            return "goes on to the next element although this one was not found equal"
        if t == 1 and P.keys(F, f) != "=":
            return "goes on to the next member although the keys were not found equal"
    return None


def indices(E, log):
    for e in log:
        if e[0] == "loop":
            L = E.loops[e[2]]
            for f in loop_steps(E, L, ZERO):
                yield L, f


def container_case(E, S, P, t, o, val):
    F = S.facts
    log = o.state.log
    if not S.br(c_eq(P.count(0) - P.count(1))):
        if S.facts.entails(c_not(val)):
            return
        raise Bad("does not report containers of different length as different")
    F = S.facts
    if S.br(val):
        F = S.facts
        if F.entails(c_ge(-P.count(0))):
            return
        why = "reports equality without having compared the elements"
        for L, f in indices(E, log):
            w = continues_rightly(E, P, t, L, f)
            if w is None:
                if F.entails(c_ge(f - P.count(0))):
                    return
                # the last element may be compared behind the loop
                if F.entails(c_eq(f + 1 - P.count(0))) and any(F.entails(c) for c in compared(log, P, F, t, f)) and (t == 2 or P.keys(F, f) == "="):
                    return
                why = "reports equality before the last element"
            else:
                why = w
        raise Bad(why)
    F = S.facts
    for f in [f for L, f in indices(E, log)] + [ZERO]:
        if not F.entails(c_and(c_ge(f), c_ge(P.count(0) - 1 - f))):
            continue
        if any(F.entails(c_not(c)) for c in compared(log, P, F, t, f)):
            return
        if t == 1 and P.keys(F, f) == "!":
            return
    raise Bad("reports a difference without having found one")


def leaf_case(E, S, o, P, t, v):
    F = S.facts
    if t == 6:
        want = True
    elif t == 5:
        a, b = (E.mk(("val", "bool", n), E.bool_tid) for n in P.n)
        want = S.br(a) == S.br(b)
        F = S.facts
    elif t == 3:
        cs = []
        for n in P.n:
            term = ("val", "string", n)
            cs.append((("sym", term), ZERO, A(("len", term), 0, 1 << 62)))
        want = c_and(c_eq(cs[0][2] - cs[1][2]), c_eq(models.strcmp_atom(*cs)))
    else:
        want = number_eq(E, P, v)
        if want is None:
            raise Bad("numbers are compared by %s" % show_cond(v))
    if want is not True and want is not False:
        want = S.br(want)
        F = S.facts
    if not F.entails(v if want else c_not(v)):
        raise Bad("reports %s where %s is due" % (show_cond(v), "equality" if want else "a difference"))


def number_eq(E, P, v):
    """The truth value v if it is the numeric comparison of the two."""
    from readers import cond_atoms
    if v is True or v is False:
        return None
    out = set()
    cond_atoms(v, out)
    want = {("val", "number", n) for n in P.n}
    for a in out:
        k = ATOM_KEY[a]
        while isinstance(k, tuple) and k and k[0] == "bool":
            k = k[1]
        if isinstance(k, tuple) and k[0] == "pure" and k[1].startswith("<decimal_rs::") and k[1].endswith("PartialEq>::eq"):
            if terms_in(k[-1], want) == want:
                return v
    return None


def terms_in(x, want):
    out = set()

    def go(x, d):
        if isinstance(x, Sym):
            go(x.term, d)
        elif isinstance(x, Adt):
            for y in x.f:
                go(y, d + 1)
        elif isinstance(x, tuple):
            if x in want:
                out.add(x)
                return
            for y in x:
                go(y, d + 1)
    go(x, 0)
    return out


def plain_case(E, S, o, P, ts):
    """One path of the comparison of two values."""
    k, val = ret_case(E, o)
    if k == "Err":
        if not justified(E, o, val):
            raise Bad("fails with %s, which is not the error of a failed step" % show_val(E, val))
        return "error"
    if fails_of(o.state.log):
        raise Bad("succeeds although a step failed")
    if not is_cond(val):
        raise Bad("the result %s is unknown" % show_val(E, val))
    if not S.br(c_eq(ts[0] - ts[1])):
        if not S.facts.entails(c_not(val)):
            raise Bad("does not report values of different types as different")
        return "types"
    for t in range(1, 7):
        if t == 6 or S.br(c_eq(ts[0] - t)):
            break
    if t < 3:
        container_case(E, S, P, t, o, val)
    else:
        leaf_case(E, S, o, P, t, val)
    return TYPES6[t - 1]


def check_head(F, R, key, group):
    api = EqApi(F, group)
    E = engine(F, api)
    body = E.fns[key]
    args = [E.mk(("arg", i), body["locals"][i + 1]) for i in range(body["argc"])]
    st = E.start(key, args)
    for i, a in enumerate(args):
        if isinstance(a, Sym) and is_lv(E, a):
            st.mem[(0, i + 1)] = E.expand(a)
    lv = [st.mem[(0, i + 1)] for i in range(len(args))]
    lv = [x for x in lv if is_lv_arg(E, st, x)]
    if len(lv) != 2:
        raise interp.Unsupported("the two values are not recognised")
    ps = [lv_parts(E, st, x) for x in lv]
    P = Pair(*[mk_node(y.region, y.off + pos, ina) for y, ty, pos, ina in ps])
    ts = [dtype_of(E, p[1]) for p in ps]
    outs = E.run(st)
    yield from judge(E, R, api, outs, lambda S, o: plain_case(E, S, o, P, ts))


def engine(F, api):
    E = interp.Engine(F, models, cuts=api, max_states=300000)
    E.unroll_k = 1
    E.heads = {}
    E.bool_tid = next(i for i, t in enumerate(F["types"]) if t["k"] == "bool")
    return E


def judge(E, R, api, outs, case, panic=None):
    n = {}
    for o in outs:
        if o.kind == "unsupported":
            yield "undecided:" + o.msg[:60], "%s in %s" % (o.msg, o.stack[-1] if o.stack else "?"), 0
            continue
        if o.kind == "panic":
            if panic is None or not panic(o):
                yield "panic:" + o.msg[:60], "may panic (%s, %s)" % (o.msg, o.span.split(":")[0]), 0
            continue
        try:
            for k, fa in explore(E, lambda S: ("k", case(S, o)), o.state.facts):
                n[k[1]] = n.get(k[1], 0) + 1
        except Bad as b:
            yield "equal:" + str(b)[:70], str(b), 0
    for ok_, t in api.unsafe_calls:
        if not ok_:
            yield "unsafe:" + t[:60], t, 0
    for k in E.unmodelled:
        yield "undecided:" + str(k)[:60], "call of %s is not modelled" % k, 0
    R.use(E)
    for k, c in n.items():
        yield None, k, c


def check_outer(F, R, key, group):
    """The public comparisons: one comparison of the two whole documents."""
    api = EqApi(F, group)
    E = engine(F, api)
    body = E.fns[key]
    args = [E.mk(("arg", i), body["locals"][i + 1]) for i in range(body["argc"])]
    st = E.start(key, args)
    outs = E.run(st)

    def case(S, o):
        v = o.value
        if is_cond(v):
            val = v
        else:
            k, val = ret_case(E, o)
            if k == "Err":
                if not justified(E, o, val):
                    raise Bad("fails with %s, which is not the error of a failed step" % show_val(E, val))
                return "error"
        if fails_of(o.state.log):
            raise Bad("succeeds although a step failed")
        evs = [e for e in events(o.state.log) if e[0] != "fail"]
        if not evs:
            # decided by the types alone
            from readers import fact_atoms
            if not S.facts.entails(c_not(val)):
                raise Bad("reports equality without a comparison")
            ds = [lin_atom(a) for a in sorted(fact_atoms(S.facts)) if isinstance(ATOM_KEY[a], tuple) and ATOM_KEY[a][0] == "discr" and isinstance(ATOM_KEY[a][1], tuple) and ATOM_KEY[a][1][0] == "dtype" and ATOM_KEY[a][1][2] == ZERO]
            if len(ds) != 2 or not S.facts.entails(c_ne(ds[0] - ds[1])):
                raise Bad("reports a difference without having found one")
            return "types"
        if len(evs) != 1 or evs[0][0] != "act":
            raise Bad("compares the documents more than once")
        a, b = evs[0][2:4]
        for i, x in ((0, a), (1, b)):
            if x[2] != ZERO or x[3] is not None:
                raise Bad("compares %s instead of the whole document" % show_node(x))
        if not docs_of(a, b):
            raise Bad("does not compare its two arguments")
        c = c_atom(("equal", evs[0][4]))
        if not (S.facts.entails(c_or(c_not(val), c)) and S.facts.entails(c_or(val, c_not(c)))):
            raise Bad("does not return the result of the comparison")
        return "compared"

    yield from judge(E, R, api, outs, case, panic=lambda o: bool(fails_of(o.state.log)))


def docs_of(a, b):
    """One is the first argument's bytes, the other the second's."""
    sa, sb = repr(a[1]), repr(b[1])
    ok01 = args_in(a[1]) == {0} and args_in(b[1]) == {1}
    return ok01 or args_in(a[1]) == {1} and args_in(b[1]) == {0}


def args_in(x):
    out = set()

    def go(x):
        if isinstance(x, (Sym,)):
            go(x.term)
        elif isinstance(x, Adt):
            for y in x.f:
                go(y)
        elif isinstance(x, Ptr):
            go(x.cell)
        elif isinstance(x, tuple):
            if len(x) == 2 and x[0] == "arg":
                out.add(x[1])
                return
            for y in x:
                go(y)
    go(x)
    return out


def job(F, key, group, outer):
    import par
    st = par.Stats()
    return list((check_outer if outer else check_head)(F, st, key, group)), st.plain()


def C13(F, R):
    import par
    R.rules.append("every path of the comparison of two values is compared with structural equality: a verdict of equality needs every element found equal (the loops by their induction step over an arbitrary index), a verdict of difference needs a found difference; every public comparison starts it on the two whole documents")
    R.assumptions += ["the read interface (LazyValue accessors, Yason::data_type) behaves as the reader checks decide it",
                      "Decimal's PartialEq compares numerically"]
    roots = sorted(r["key"] for r in F["roots"] if F["fns"].get(r["key"], {}).get("path") == EQUALS or r.get("trait") == "core::cmp::PartialEq" and r["name"] in ("eq", "ne") and F["types"][r["self_ty"]].get("path") in ("yason::yason::Yason", "yason::yason::YasonBuf"))
    g = set()
    for k in roots:
        g |= groups_from(F, k)
    if not g:
        R.bad("missing:recursion", "no recursive comparison of values is reached from %s" % EQUALS)
        return
    jobs = [(job, (F, k, g, False)) for k in sorted(g)] + [(job, (F, k, g, True)) for k in roots]
    n = 0
    for (fn, (_, k, _g, _o)), (st, r) in zip(jobs, par.run_jobs(jobs)):
        nm = k.split("#")[0]
        if st == "error":
            R.bad("undecided:%s" % nm, "%s: %s" % (nm, r))
            continue
        R.use(par.Stats.of(r[1]))
        for key, text, c in r[0]:
            if key is None:
                R.good("cases agree", c, {"function": nm, "case": text, "paths": c})
                n += c
            else:
                R.bad("%s:%s" % (key, nm), "%s: %s" % (nm, text))
    R.floor("public comparisons", len(roots), 3)
    R.floor("recursive comparisons", len(g), 2)
    R.floor("cases compared", n, 60)
