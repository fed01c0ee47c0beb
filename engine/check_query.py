"""Queries: what each step of a path selects (C19, C31), item methods (C32),
existence (C20), the result contract (C21)."""
from terms import *
from spec import *
from api import *
import interp
import models
import callgraph
import buildcut
from interp import is_cond


def groups_from(F, root):
    """The functions of the recursive group reachable from root that share the
    generic function at which root enters it, and the group."""
    g = callgraph.graph(F)
    seen, todo = {root}, [root]
    comps = {}
    for c in callgraph.sccs(g):
        for k in c:
            comps[k] = c
    heads = set()
    while todo:
        x = todo.pop()
        for y in g.get(x, ()):
            if y in comps and F["fns"][y].get("local") and comps.get(x) is not comps[y]:
                heads.add(y)
            if y not in seen:
                seen.add(y)
                todo.append(y)
    out = set()
    for h in heads:
        p = F["fns"][h]["path"]
        out |= {k for k in comps[h] if F["fns"][k]["path"] == p}
    return out


def vfield(E, tid, var, name_or_ix):
    return name_or_ix


def case(S, E, v, tid=None):
    """The variant of an enum value, by name."""
    if isinstance(v, Adt):
        return vname(E, v)
    t = E.T[v.tid]
    d = A(("discr", v.term), 0, len(t["variants"]) - 1)
    for i, x in enumerate(t["variants"][:-1]):
        if S.br(c_eq(d - x["d"])):
            return x["n"]
    return t["variants"][-1]["n"]


def part(E, v, name, i):
    """Field i of variant name of an enum value."""
    if isinstance(v, Adt):
        return v.f[i]
    for k, x in enumerate(E.T[v.tid]["variants"]):
        if x["n"] == name:
            return E.sym_field(v, k, i)


def flags(E, sel, roles):
    """The fields that ask for existence only and that admit several values,
    recognised by what PathExpression::query passes."""
    if roles is not None:
        return sel.f[roles[0]], sel.f[roles[1]]
    t = E.T[sel.tid]
    f = {x["n"]: sel.f[i] for i, x in enumerate(t["variants"][0]["f"])}
    return f.get("for_exists"), f.get("with_wrapper")


class Query:
    """The selector function on arbitrary arguments."""
    def __init__(self, E, st, key, roles):
        b = E.fns[key]
        self.E = E
        self.args = st.frames[0]
        self.lv = self.sel = self.si = None
        for i in range(b["argc"]):
            v = st.mem[(0, i + 1)]
            if is_lv(E, v):
                self.lv = v
            elif isinstance(v, Lin):
                self.si = v
            else:
                self.sel = v
        if self.lv is None or self.sel is None or self.si is None:
            raise interp.Unsupported("the recursive selector has no value, step or selector argument")
        self.selv = E.read_cell(st, self.sel.cell, self.sel.path)
        if isinstance(self.selv, Sym):
            self.selv = E.expand(self.selv)
        t = E.T[self.selv.tid]
        self.f = {x["n"]: self.selv.f[i] for i, x in enumerate(t["variants"][0]["f"])}
        self.exists, self.wrapper = flags(E, self.selv, roles)
        self.steps = None
        self.buf = None
        for n, v in self.f.items():
            u = unwrap(v)
            if isinstance(u, Sl):
                self.steps = u
            elif isinstance(u, Ptr):
                self.buf = u
        if not (is_cond(self.exists) and is_cond(self.wrapper)) or self.steps is None or self.buf is None:
            raise interp.Unsupported("the selector's fields are not recognised")
        y, ty, pos, ina = lv_parts(E, st, self.lv)
        self.node = mk_node(y.region, y.off + pos, ina)
        self.dt = dtype_of(E, ty)
        self.ty = ty
        self.buf0 = E.read_cell(st, self.buf.cell, self.buf.path)

    def doc(self):
        return Doc(doc_slice(self.node))

    # children
    def element(self, i):
        return mk_node(doc_region(self.node), i.scale(5) + 7, True)

    def member_at(self, S, i):
        D = self.doc()
        off = A(("le", D.region, i.scale(4) + 7, 4, False), 0, (1 << 32) - 1)
        kl = A(("le", D.region, off + 5, 2, False), 0, 65535)
        return mk_node(D.region, off + 7 + kl, False)

    def count(self, S):
        return le(S, self.doc(), const(5), 2)

    def items(self, S):
        """What the current step has to continue with."""
        E = self.E
        step = E.mk(("elem", self.steps.region, self.steps.off + self.si), self.steps.etid)
        n = case(S, E, step)
        nx = self.si + 1
        isarr = lambda: S.br(c_eq(self.dt - 2))
        isobj = lambda: S.br(c_eq(self.dt - 1))
        if n == "Object":
            o = part(E, step, "Object", 0)
            k = case(S, E, o)
            self.kind = "key" if k == "Key" else "wildcard"
            if isobj():
                if k == "Key":
                    return self.get(S, part(E, o, "Key", 0), nx)
                return [("each", ZERO, self.count(S) - 1, lambda S2, i: [("rec", self.member_at(S2, i), nx)])]
            if isarr():
                return [("each", ZERO, self.count(S) - 1, lambda S2, i: [("rec", self.element(i), self.si)])]
            return []
        if n == "Array":
            a = part(E, step, "Array", 0)
            k = case(S, E, a)
            self.kind = "array " + k
            if k == "Wildcard":
                if isarr():
                    return [("each", ZERO, self.count(S) - 1, lambda S2, i: [("rec", self.element(i), nx)])]
                return [("rec", self.node, nx)]
            if k == "Multiple":
                v = part(E, a, "Multiple", 0)
                reg, cnt, et = v.init, v.len, v.etid
                cell = lambda j: E.mk(("elem", reg, j), et)
                if isarr():
                    c = self.count(S)
                    return [("each", ZERO, cnt - 1, lambda S2, j: self.cell(S2, cell(j), c, nx))]
                return [("any", ZERO, cnt - 1, lambda S2, j: self.sel_bounds(S2, cell(j), ONE) is not None, [("rec", self.node, nx)])]
            if k == "Index":
                b = ("Index", part(E, a, "Index", 0), None)
            elif k == "Last":
                b = ("Last", part(E, a, "Last", 0), None)
            else:
                b = ("Range", part(E, a, "Range", 0), part(E, a, "Range", 1))
            if isarr():
                return self.pick(S, b, self.count(S), nx)
            if self.bounds(S, b, ONE) is not None:
                return [("rec", self.node, nx)]
            return []
        if n == "Descendent":
            self.kind = "descendant"
            if isobj():
                first = self.get(S, part(E, step, "Descendent", 0), nx)
                return first + [("each", ZERO, self.count(S) - 1, lambda S2, i: [("rec", self.member_at(S2, i), self.si)])]
            if isarr():
                return [("each", ZERO, self.count(S) - 1, lambda S2, i: [("rec", self.element(i), self.si)])]
            return []
        if n == "Func":
            self.kind = "method"
            return ("func", case(S, E, part(E, step, "Func", 0)))
        self.kind = "root"
        return None

    def get(self, S, key, nx):
        v = unwrap(key)
        kc = (v.init, ZERO, v.len)
        D = self.doc()
        if S.br(c_atom(("has", D.region, kc))):
            return [("rec", mk_node(D.region, A(("member", D.region, kc), 1, 1 << 62), False), nx)]
        return []

    def pos(self, S, x, n):
        """The element a single index denotes in an array of n, maybe outside."""
        k = case(S, self.E, x)
        v = part(self.E, x, k, 0)
        return v if k == "Index" else n - 1 - v

    def bounds(self, S, b, n):
        """First and last selected element, or None."""
        if b[0] == "Index":
            p = q = b[1]
        elif b[0] == "Last":
            p = q = n - 1 - b[1]
        else:
            p, q = self.pos(S, b[1], n), self.pos(S, b[2], n)
        lo, hi = (p, q) if S.br(c_ge(q - p)) else (q, p)
        if not S.br(c_ge(lo)):
            lo = ZERO
        if not S.br(c_ge(n - 1 - hi)):
            hi = n - 1
        if S.br(c_ge(hi - lo)):
            return lo, hi
        return None

    def sel_bounds(self, S, cell, n):
        k = case(S, self.E, cell)
        if k == "Single":
            x = part(self.E, cell, "Single", 0)
            p = self.pos(S, x, n)
            return self.bounds(S, ("Index", p), n)
        return self.bounds(S, ("Range", part(self.E, cell, "Range", 0), part(self.E, cell, "Range", 1)), n)

    def pick(self, S, b, n, nx):
        r = self.bounds(S, b, n)
        if r is None:
            return []
        if b[0] != "Range":
            return [("rec", self.element(r[0]), nx)]
        return [("each", r[0], r[1], lambda S2, i: [("rec", self.element(i), nx)])]

    def cell(self, S, cell, n, nx):
        r = self.sel_bounds(S, cell, n)
        if r is None:
            return []
        if case(S, self.E, cell) == "Single":
            return [("rec", self.element(r[0]), nx)]
        return [("each", r[0], r[1], lambda S2, i: [("rec", self.element(i), nx)])]


def pure_read_error(E, facts, e):
    """Whether an error built in place is a true statement about the bytes of a
    document."""
    if not isinstance(e, Adt):
        return False
    n = vname(E, e)
    if n == "IndexOutOfBounds":
        ln, ix = e.f[0], e.f[1]
        a = single_atom(ln)
        k = ATOM_KEY[a] if a is not None else None
        return isinstance(k, tuple) and k[0] == "len" and facts.entails(c_ge(ix - ln))
    if n == "InvalidDataType":
        b = e.f[0]
        return facts.entails(c_or(c_ge(-b), c_ge(b - 7)))
    if n == "InvalidDataLength":
        return True
    return False


def error_source(E, e):
    """The failing call an error stems from: the payload below conversions."""
    n = 0
    while isinstance(e, Adt) and n < 5:
        if not e.f:
            return e
        x = e.f[0]
        if isinstance(x, (Sym, Adt)):
            e = x
        else:
            return e
        n += 1
    return e


def ret_case(E, o):
    """('Ok', value) or ('Err', error)."""
    v = o.value
    if isinstance(v, Adt):
        return vname(E, v), (v.f[0] if v.f else None)
    raise Bad("the result %s is unknown" % show_val(E, v))


def fails_of(log):
    return [e[1] for e in log if e[0] == "fail"]


def justified(E, o, err):
    """Whether the returned error is that of a failed step."""
    for e in fails_of(o.state.log):
        if err == e or error_source(E, err) == e:
            return True
    if pure_read_error(E, o.state.facts, err):
        return True
    src = error_source(E, err)
    if isinstance(src, Sym) and isinstance(src.term, tuple) and src.term[0] in ("reserve-error", "encode-error"):
        return True
    return False


def check_selector(F, R, key, mode, roles):
    """Analyses the recursive selector in one mode."""
    api = Api(F, groups_from(F, "yason::path::PathExpression::query"))
    E = interp.Engine(F, models, cuts=api, max_states=300000)
    E.unroll_k = 1
    body = E.fns[key]
    args = [E.mk(("arg", i), body["locals"][i + 1]) for i in range(body["argc"])]
    st = E.start(key, args)
    for i, a in enumerate(args):
        if isinstance(a, Sym) and is_lv(E, a):
            st.mem[(0, i + 1)] = E.expand(a)
    Q = Query(E, st, key, roles)
    f = st.facts
    f = f.assume(Q.exists if mode == "exists" else c_not(Q.exists))
    if mode == "exists" or mode == "wrapper":
        f = f.assume(Q.wrapper)
    else:
        f = f.assume(c_not(Q.wrapper))
    f = f.assume(c_and(c_ge(Q.si - 1), c_ge(Q.steps.len - Q.si)))
    st.facts = f
    outs = E.run(st)
    kinds = {}
    for o in outs:
        if o.kind == "unsupported":
            yield "undecided:" + o.msg[:60], "undecided: %s in %s" % (o.msg, o.stack[-1] if o.stack else "?"), "*", 0
            continue
        if o.kind == "panic":
            # a root step after the first does not occur in a parsed path
            for exp, fa in explore(E, lambda S: panic_case(S, Q), o.state.facts):
                if exp[0] != "root":
                    yield "panic:" + exp[0], "a query panics (%s, %s)" % (o.msg, o.span.split(":")[0]), exp[0], 0
            continue
        try:
            for exp, fa in explore(E, lambda S: spec_case(S, E, Q, o, mode), o.state.facts):
                kinds[exp[0]] = kinds.get(exp[0], 0) + 1
        except Bad as b:
            yield "%s:%s" % (Q.kind, str(b)[:70]), "%s step (%s): %s" % (Q.kind, mode, b), Q.kind, 0
    for ok_, t in api.unsafe_calls:
        if not ok_:
            yield "unsafe:" + t[:60], t, "*", 0
    R.use(E)
    for k, n in kinds.items():
        yield None, None, k, n


def panic_case(S, Q):
    if S.br(c_eq(Q.si - Q.steps.len)):
        return ("leaf",)
    Q.kind = None
    Q.items(S)
    return (Q.kind,)


def spec_case(S, E, Q, o, mode):
    Q.kind = "end"
    evs = events(o.state.log)
    k, val = ret_case(E, o)
    buf = E.read_cell(o.state, Q.buf.cell, Q.buf.path)
    new = buf.writes[len(Q.buf0.writes):] if isinstance(buf, VecV) else None
    if new is None or buf.writes[:len(Q.buf0.writes)] != Q.buf0.writes or buf.init != Q.buf0.init:
        raise Bad("the query buffer is replaced")
    if k == "Err" and not fails_of(o.state.log) and vname(E, val) == "MultiValuesWithoutWrapper" if isinstance(val, Adt) else False:
        if mode == "plain" and S.br(c_eq(Q.si - Q.steps.len)):
            if not S.facts.entails(c_ge(Q.buf0.len - 1)):
                raise Bad("reports several values although there is none yet")
            return ("end",)
        raise Bad("reports several values where a step continues")
    if k == "Err" and not justified(E, o, val):
        raise Bad("fails with %s, which is not the error of a failed step" % show_val(E, val))
    if S.br(c_eq(Q.si - Q.steps.len)):
        if k == "Err":
            return ("end",)
        if fails_of(o.state.log):
            raise Bad("succeeds although a step failed")
        pushes = [w for w in new if w[0] != "rec"]
        if [e for e in evs if e[0] != "fail"] or any(w[0] == "rec" for w in new):
            raise Bad("continues after the last step")
        if mode == "exists":
            if not S.facts.entails(val):
                raise Bad("does not report the match")
            return ("end",)
        if mode == "plain" and not S.facts.entails(c_eq(Q.buf0.len)):
            raise Bad("adds a second value without a wrapper")
        if len(pushes) != 1 or pushes[0][0] != "w" or pushes[0][1] != Q.buf0.len or not is_value_of(E, pushes[0][3], Q.node):
            raise Bad("does not add exactly the selected value")
        return ("end",)
    items = Q.items(S)
    if items is None:
        raise Bad("continues at a root step")
    if isinstance(items, tuple):
        return method_case(S, E, Q, o, mode, items[1], k, val, new, evs)
    if any(w[0] not in ("rec", "loopw") for w in new):
        raise Bad("changes the query buffer itself")
    t = Trace(E, S, mode)
    r = t.run(items, evs)
    if r == "fail":
        if k != "Err":
            raise Bad("succeeds although a step failed")
        return (Q.kind,)
    if k == "Err":
        return (Q.kind,)
    if r is True:
        if mode == "exists":
            any_ = False
            for c in t.found:
                any_ = c_or(any_, c)
            if not (S.facts.entails(c_or(c_not(val), any_)) and S.facts.entails(c_or(val, c_not(any_)))):
                raise Bad("reports %s for existence where %s is due" % (show_cond(val), show_cond(any_)))
        return (Q.kind,)
    # ended early with success
    if mode != "exists":
        raise Bad("stops before %s" % show_item(r[1]))
    if not any(S.facts.entails(c) for c in t.found):
        raise Bad("stops before %s without a match" % show_item(r[1]))
    if not S.facts.entails(val):
        raise Bad("does not report the match it stops at")
    return (Q.kind,)


def is_value_of(E, data, nd):
    if data[0] != "val":
        return False
    v = data[1]
    return isinstance(v, Sym) and v.term == ("val", nd)


def method_case(S, E, Q, o, mode, name, k, val, new, evs):
    Q.kind = "method"
    if mode == "exists":
        return ("method",)       # exists rejects such paths
    if [e for e in evs if e[0] not in ("fail",)]:
        raise Bad("%s() continues with other values" % name.lower())
    if k == "Err":
        return ("method",)
    if fails_of(o.state.log):
        raise Bad("%s() succeeds although a step failed" % name.lower())
    if len(new) != 1 or new[0][0] != "w" or new[0][1] != Q.buf0.len:
        raise Bad("%s() does not add exactly one value" % name.lower())
    v = new[0][3][1]
    n = vname(E, v) if isinstance(v, Adt) else None
    if name == "Count":
        return ("method",)
    if name == "Size":
        want = Q.count(S) if S.br(c_eq(Q.dt - 2)) else ONE
        x = v.f[0] if n == "Number" else None
        got = number_of(E, o.state, x)
        if got is None or not S.facts.entails(c_eq(got - want)):
            raise Bad("size() yields %s instead of %r" % (show_val(E, v), want))
        return ("method",)
    names = ["object", "array", "string", "number", "bool", "null"]
    for i, w in enumerate(names):
        if i == 5 or S.br(c_eq(Q.dt - (i + 1))):
            break
    x = unwrap(v.f[0]) if n == "String" else None
    if not (isinstance(x, Sl) and x.region[0] == "const" and x.off.is_const() and x.len.is_const() and x.region[1][x.off.c:x.off.c + x.len.c] == w.encode()):
        raise Bad("type() yields %s instead of %s" % (show_val(E, v), w))
    return ("method",)


def number_of(E, st, x):
    """The integer a Number was made from."""
    n = 0
    while isinstance(x, Adt) and n < 3:
        x = x.f[0] if x.f else None
        n += 1
    if isinstance(x, Sym) and x.term[0] in ("pure", "call") and "From<usize>" in x.term[1]:
        a = x.term[-1][0] if x.term[0] == "pure" else x.term[2][0]
        return a if isinstance(a, Lin) else None
    return None


# ------------------------------------------------------------------ query and exists
class Outer:
    """PathExpression::query or ::exists on arbitrary arguments."""
    def __init__(self, F, name):
        self.api = Api(F, groups_from(F, name), extra=buildcut.BuildCut())
        E = self.E = interp.Engine(F, models, cuts=self.api, max_states=300000)
        E.unroll_k = 0
        b = F["fns"][name]
        self.args = [E.mk(("arg", i), b["locals"][i + 1]) for i in range(b["argc"])]
        self.doc = self.wrapper = self.qbuf = self.rbuf = self.path = None
        for i, a in enumerate(self.args):
            ts = E.T[b["locals"][i + 1]]["s"]
            if is_cond(a):
                self.wrapper = a
            elif "Vec<u8" in ts:
                self.rbuf = a
            elif "Vec<" in ts:
                self.qbuf = a
            elif "PathExpression" in ts:
                self.path = a
            else:
                self.doc = unwrap(a)
        if not isinstance(self.doc, Sl) or self.path is None:
            raise interp.Unsupported("the document or path argument of %s is not recognised" % name)
        st = E.start(name, self.args)
        p = E.read_cell(st, self.path.cell, self.path.path)
        self.steps = unwrap(E.expand(p) if isinstance(p, Sym) else p)
        if not isinstance(self.steps, VecV):
            raise interp.Unsupported("the steps of a path are not recognised")
        # a parsed path starts with its root
        st.facts = st.facts.assume(c_ge(self.steps.len - 1))
        self.st = st
        self.outs = None
        self.counts = 0

    def run(self):
        self.outs = self.E.run(self.st)
        return self.outs

    def method(self, S):
        """The item method at the end of the path, or None."""
        E = self.E
        if not S.br(c_ge(self.steps.len - 2)):
            return None
        last = E.mk(("elem", self.steps.init, self.steps.len - 1), self.steps.etid)
        if case(S, E, last) != "Func":
            return None
        return case(S, E, part(E, last, "Func", 0))

    def selection(self, S, ev, exists, wrapper):
        """The one call of the selector: on the whole document and path."""
        E = self.E
        nd, step, snaps = ev[2], ev[3], ev[5]
        if nd is None or nd[1] != self.doc.region or not S.facts.entails(c_eq(nd[2])):
            raise Bad("queries %s instead of the document" % show_node(nd))
        if step is None or not S.facts.entails(c_eq(step - 1)):
            raise Bad("starts at step %r instead of the one after the root" % (step,))
        sel = [x[1] for x in snaps if isinstance(x, tuple) and x[0] == "&" and isinstance(x[1], Adt)]
        if len(sel) != 1:
            raise Bad("no selector is passed")
        buf = steps = None
        conds = []
        for i, x in enumerate(sel[0].f):
            u = unwrap(x)
            if isinstance(u, Sl):
                steps = u
            elif isinstance(u, tuple) and u[0] == "&":
                buf = u[1]
            elif is_cond(x):
                conds.append((i, x))
        if steps is None or not self.same_steps(S, steps):
            raise Bad("the selector does not get the steps of the path")
        if not isinstance(buf, VecV) or not S.facts.entails(c_eq(buf.len)):
            raise Bad("the selector starts with values from before in its buffer")
        return conds, buf

    def same_steps(self, S, sl):
        r = sl.region
        return sl.off == ZERO and S.facts.entails(c_eq(sl.len - self.steps.len)) and (r == self.steps.init or r[0] == "place" or r == ("sym", self.steps.init))


def roles_of(O):
    """Which selector field is the existence flag and which the wrapper flag."""
    E = O.E
    for o in O.outs:
        for ev in o.state.log:
            if ev[0] != "rec":
                continue
            for x in ev[5]:
                if isinstance(x, tuple) and x[0] == "&" and isinstance(x[1], Adt):
                    cs = [(i, c) for i, c in enumerate(x[1].f) if is_cond(c)]
                    w = [i for i, c in cs if iff(o.state.facts, c, O.wrapper)]
                    e = [i for i, c in cs if i not in w and o.state.facts.entails(c_not(c))]
                    if len(w) == 1 and len(e) == 1 and o.state.facts.entails(O.wrapper):
                        return e[0], w[0]
    return None


def iff(facts, a, b):
    return facts.entails(c_or(c_not(a), b)) and facts.entails(c_or(a, c_not(b)))


def root_sym(t):
    """The value a projection is taken from."""
    while isinstance(t, tuple) and t and t[0] in ("f", "*"):
        t = t[1]
    return t


def caused(E, o, err):
    """Whether the returned error is, or is made from, that of a failed step."""
    if justified(E, o, err):
        return True
    src = error_source(E, err)
    for e in fails_of(o.state.log):
        if isinstance(src, Sym) and isinstance(e, Sym) and root_sym(src.term) == root_sym(e.term):
            return True
    return False


def check_outer(F, R, name, exists, roles=None, O=None):
    """Yields (key, text, property)."""
    O = O or Outer(F, name)
    E = O.E
    outs = O.outs if O.outs is not None else O.run()
    n = {"C20": 0, "C21": 0, "C32": 0, "C24": 0}
    for o in outs:
        if o.kind == "unsupported":
            yield "undecided:" + o.msg[:60], "undecided: %s in %s" % (o.msg, o.stack[-1] if o.stack else "?"), "*"
            continue
        if o.kind == "panic":
            yield "panic", "%s panics (%s, %s)" % (name, o.msg, o.span.split(":")[0]), "*"
            continue
        O.prop = "C20" if exists else "C21"
        try:
            f = exists_case if exists else query_case
            for exp, fa in explore(E, lambda S: f(S, O, o, roles), o.state.facts):
                n[exp[0]] += 1
        except Bad as b:
            yield "%s:%s" % (name.rsplit("::", 1)[-1], str(b)[:70]), "PathExpression::%s: %s" % (name.rsplit("::", 1)[-1], b), O.prop
    R.use(E)
    n["C32"] += O.counts
    for p, k in n.items():
        yield None, k, p


def is_multi(E, e):
    return isinstance(e, Adt) and vname(E, e) == "MultiValuesWithoutWrapper"


def exists_case(S, O, o, roles):
    E = O.E
    O.prop = "C20"
    k, val = ret_case(E, o)
    evs = events(o.state.log)
    if O.method(S) is not None:
        if k != "Err" or evs:
            raise Bad("a path with an item method is not rejected")
        return ("C20",)
    if k == "Err":
        if not fails_of(o.state.log):
            raise Bad("fails with %s although no step failed" % show_val(E, val))
        if not caused(E, o, val):
            O.prop = "C24"
            raise Bad("fails with %s, which is not the error of a failed step" % show_val(E, val))
        return ("C24",)
    recs = [e for e in evs if e[0] == "rec"]
    if len(recs) != 1 or len(evs) != 1:
        raise Bad("does not run the selector exactly once")
    conds, buf = O.selection(S, recs[0], True, True)
    if roles is not None:
        d = dict(conds)
        if d.get(roles[0]) is None or not S.facts.entails(d[roles[0]]):
            raise Bad("does not run the selector for existence")
        if not S.facts.entails(d[roles[1]]):
            raise Bad("does not let the selector match several values")
    if not iff(S.facts, val, c_atom(("found", recs[0][4]))):
        raise Bad("does not return what the selector found")
    return ("C20",)


def query_case(S, O, o, roles):
    E = O.E
    O.prop = "C21"
    k, val = ret_case(E, o)
    evs = [e for e in events(o.state.log)]
    m = O.method(S)
    wrapper = S.br(O.wrapper)
    if m is not None and not wrapper:
        if k != "Err" or not is_multi(E, val) or any(e[0] != "fail" for e in evs):
            raise Bad("an item method without wrapper is not rejected as several values")
        return ("C21",)
    recs = [e for e in evs if e[0] == "rec"]
    if not recs:
        if k == "Ok" or not fails_of(o.state.log) and not pure_read_error(E, o.state.facts, val):
            raise Bad("returns without running the selector")
        if not caused(E, o, val):
            O.prop = "C24"
            raise Bad("fails with %s, which is not the error of a failed step" % show_val(E, val))
        return ("C24",)
    if len(recs) != 1 or evs[0][0] != "rec":
        raise Bad("does not run the selector exactly once")
    conds, buf0 = O.selection(S, recs[0], False, wrapper)
    cs = [c for i, c in conds]
    if not any(iff(S.facts, c, O.wrapper) for c in cs):
        raise Bad("the selector does not get the wrapper setting")
    if roles is not None and not S.facts.entails(c_not(dict(conds)[roles[0]])):
        raise Bad("the selector runs for existence only")
    n = recs[0][4]
    if k == "Err" and fails_of(o.state.log):
        if not caused(E, o, val):
            O.prop = "C24"
            raise Bad("fails with %s, which is not the error of a failed step" % show_val(E, val))
        return ("C24",)
    if k == "Ok" and (fails_of(o.state.log) or not recs[0][-1]):
        O.prop = "C24"
        raise Bad("succeeds although a step failed")
    nm = vname(E, val) if k == "Ok" and isinstance(val, Adt) else None
    # the buffer as the selector left it
    if len(recs[0][7]) != 1:
        raise Bad("the selector does not fill exactly one buffer")
    filled = recs[0][7][0]
    blen = filled.len
    qsome = O.qbuf is not None and case(S, E, O.qbuf) == "Some"
    rsome = O.rbuf is not None and case(S, E, O.rbuf) == "Some"
    rest = evs[1:]
    if not wrapper:
        # the selector adds at most one value without wrapper
        if k == "Err":
            raise Bad("fails although the selector succeeded")
        f = S.facts.assume(c_ge(-(blen - 1)))
        if f is None or f.contradictory():
            raise Infeasible()
        S.facts = f
        if rest:
            raise Bad("does %s after the selection" % show_ev(rest[0]))
        if S.br(c_ge(blen - 1)):
            t = val.f[0].term if nm == "Value" and isinstance(val.f[0], Sym) else None
            if nm != "Value":
                raise Bad("returns %s for one match without wrapper" % nm)
            if not is_elem(S, t, buf0, n, ZERO):
                raise Bad("does not return the selected value")
        elif nm != "None":
            raise Bad("returns %s without a match" % nm)
        return ("C21",)
    if m == "Count":
        O.prop = "C32"
        if k == "Err":
            if alloc_error(E, val):
                return ("C24",)
            if not rsome:
                raise Bad("count() fails although the selector succeeded")
        b = final_vec(E, o, val if k == "Ok" else None, rest, n)
        if b is None:
            raise Bad("count() does not leave its result in the query buffer")
        w = b.writes
        if not S.facts.entails(c_eq(b.len - 1)) or not w or w[-1][0] != "w":
            raise Bad("count() does not leave exactly one value")
        v = w[-1][3][1] if w[-1][3][0] == "val" else None
        x = v.f[0] if isinstance(v, Adt) and vname(E, v) == "Number" else None
        got = number_of(E, o.state, x) if x is not None else None
        if got is None or not S.facts.entails(c_eq(got - blen)):
            raise Bad("count() yields %s instead of the number of selected values" % (show_val(E, v) if v is not None else "nothing"))
        O.prop = "C21"
        O.counts += 1
        total = ONE
    else:
        total = blen
        b = filled
        if S.br(c_eq(blen)):
            if k == "Err" or nm != "None" or rest:
                raise Bad("returns %s without a match" % (nm or "an error"))
            return ("C21",)
    if not rsome:
        if k == "Err":
            raise Bad("fails although the selector succeeded")
        if rest:
            raise Bad("does %s after the selection" % show_ev(rest[0]))
        if nm != ("ValuesRef" if qsome else "Values"):
            raise Bad("returns %s for matches with wrapper %s query buffer" % (nm, "and" if qsome else "without"))
        r = val.f[0]
        if qsome:
            q = part(E, O.qbuf, "Some", 0)
            if r != q:
                raise Bad("does not return the query buffer")
            r = E.read_cell(o.state, r.cell, r.path)
        if not isinstance(r, VecV) or not S.facts.entails(c_eq(r.len - total)):
            raise Bad("does not return all selected values")
        if m != "Count" and r.writes[-1] != ("rec", n):
            raise Bad("changes the selected values")
        return ("C21",)
    # encoded into the result buffer
    if k == "Err":
        if too_many(E, S, val, total):
            return ("C21",)
        raise Bad("fails with %s although every value was appended" % show_val(E, val))
    ids = {}

    def try_new(S2, e):
        q = part(E, O.rbuf, "Some", 0)
        if e[5] is None or e[5][0] != (q.cell, q.path):
            raise Bad("builds into another buffer than the result buffer")
        if not S2.facts.entails(c_eq(e[5][1].len)):
            raise Bad("builds behind the old content of the result buffer")
        if not any(isinstance(x, Lin) and S2.facts.entails(c_eq(x - total)) for x in e[3]):
            raise Bad("declares another number of elements than there are values")
        ids["b"] = ("builder", e[4])

    def body(S2, i):
        return [("act", None, lambda S3, e: push_matches(E, S3, o, e, ids, i, b))]

    def finish(S2, e):
        if e[2] != ids.get("b"):
            raise Bad("finishes another builder")
        ids["f"] = e[4]
    items = [("act", "try_new", try_new), ("each", ZERO, total - 1, body), ("act", "finish", finish)]
    t = Trace(E, S, "plain")
    r = t.run(items, rest)
    if r is not True:
        raise Bad("stops before the result is complete")
    y = unwrap(val.f[0]) if nm == "Yason" else None
    if not isinstance(y, Sl) or y.region != ("sym", ("built", ids["f"])) or y.off != ZERO:
        raise Bad("does not return the encoded result")
    return ("C21",)


def final_vec(E, o, val, rest, n):
    """The query buffer at the end or when it is encoded."""
    for e in rest:
        if e[0] == "act" and e[6]:
            return e[6][0] if len(e[6]) == 1 else None
    r = unwrap(val) if val is not None else None
    if isinstance(r, Ptr):
        r = E.read_cell(o.state, r.cell, r.path)
    if isinstance(r, VecV):
        return r
    return None


def alloc_error(E, e):
    src = error_source(E, e)
    return isinstance(src, Sym) and isinstance(src.term, tuple) and src.term[0] in ("reserve-error",)


def too_many(E, S, e, n):
    """A count the format cannot hold."""
    return S.facts.entails(c_ge(n - 65536)) and isinstance(e, Adt)


def is_elem(S, t, buf0, n, i):
    """Element i of the values the selector added to the buffer."""
    return isinstance(t, tuple) and t[0] == "vold" and t[2] and t[2][-1] == ("rec", n) and isinstance(t[3], Lin) and S.facts.entails(c_eq(t[3] - i)) and S.facts.entails(c_eq(buf0.len))


def push_matches(E, S, o, e, ids, i, b):
    """The event appends element i of the selected values."""
    seg, bid, vals = e[1], e[2], e[3]
    if bid != ids.get("b"):
        raise Bad("appends to another builder")
    st = o.state.copy()
    st.facts = S.facts
    el = E.vec_read(st, b, i)
    k = case(S, E, el)
    want = {"Object": "push_object_or_array", "Array": "push_object_or_array", "String": "push_string", "Number": "push_number", "Bool": "push_bool", "Null": "push_null"}
    if want.get(k) != seg:
        raise Bad("appends a selected %s with %s" % (k.lower(), seg) + str(el)[:400]+"@@"+str(e[3])[:500])
    if k == "Null":
        return
    w = buildcut.resolve(E, o.state, part(E, el, k, 0))
    if not vals or not same_resolved(S, vals[0], w):
        raise Bad("appends %s instead of the selected %s" % (str(vals[:1])[:100], k.lower()))
    if k in ("Object", "Array"):
        if len(vals) != 2 or dtype_of(E, vals[1]) != const(1 if k == "Object" else 2):
            raise Bad("appends a selected %s as something else" % k.lower())


def same_resolved(S, a, b):
    if isinstance(a, Lin) and isinstance(b, Lin):
        return S.facts.entails(c_eq(a - b))
    if is_cond(a) and is_cond(b):
        return iff(S.facts, a, b)
    return a == b
