"""The read interface as an abstract document model, for the code above it
(queries, formatting, equality): the functions that materialise values are
replaced by their contract (decided by the reader checks), everything else is
analysed from its own code, and recursion becomes an event.  A trace of calls
and loops is then compared with the sequence a specification asks for."""
from terms import *
from spec import *
import interp
import models
from models import variant, payload_tid, content, as_slice

LV = "yason::yason::LazyValue::<'a, IN_ARRAY>::"


def lv_parts(E, st, v):
    """(yason slice, type, position, in_array) of a LazyValue."""
    n = 0
    while isinstance(v, Ptr) and n < 4:
        v = E.read_cell(st, v.cell, v.path)
        n += 1
    if isinstance(v, Sym):
        v = E.expand(v)
    s = E.T[v.tid]["s"]
    y = ty = pos = None
    for x in v.f:
        u = unwrap(x)
        if isinstance(u, Sl):
            y = u
        elif isinstance(u, Lin):
            pos = u
        else:
            ty = x
    return y, ty, pos, s.endswith("true>")


def is_lv(E, v):
    t = E.T[v.tid] if isinstance(v, (Adt, Sym)) else None
    return t is not None and t.get("path") == "yason::yason::LazyValue"


def node(E, st, v):
    y, ty, pos, ina = lv_parts(E, st, v)
    return mk_node(y.region, y.off + pos, ina)


def mk_node(region, pos, ina):
    if pos == ZERO:
        return ("node", region, ZERO, None)
    return ("node", region, pos, ina)


def doc_region(nd):
    """The region of the document a node is, as a container."""
    if nd[3] is None:
        return nd[1]
    return ("sym", ("doc", nd))


def doc_slice(nd):
    r = doc_region(nd)
    return Sl(r, ZERO, A(("len", r[1]), 0, 1 << 62), None)


def dtype_of(E, ty):
    if isinstance(ty, Adt):
        return const(E.T[ty.tid]["variants"][ty.var]["d"])
    if isinstance(ty, Sym):
        return ty.term[1] if ty.term[0] == "ofdiscr" else A(("discr", ty.term), 1, 6)
    return ty


class Api:
    """Cuts for one analysis."""
    def __init__(self, F, rec=(), extra=None):
        self.F, self.rec, self.extra = F, frozenset(rec), extra
        self.unsafe_calls = []      # (ok, text)
        self.recs = []

    def fresh(self, st):
        n = st.ncall
        st.ncall += 1
        return n

    def result(self, E, st, dest, target, mkok, fails=True):
        """Ok(mkok(state)) or an error of its own."""
        out = []
        rt = dest[3]
        if fails:
            s = st.copy()
            e = E.mk(("apierr", self.fresh(s)), payload_tid(E, rt, "Err"))
            s.emit(("fail", e))
            out += E.finish_call(s, dest, target, variant(E, rt, "Err", [e]))
        out += E.finish_call(st, dest, target, variant(E, rt, "Ok", [mkok(st)]))
        return out

    def __call__(self, E, st, callee, args, dest, target, span):
        name = callee.get("path") or callee["decl"]
        key = callee.get("key")
        if self.extra is not None:
            r = self.extra(self, E, st, callee, args, dest, target, span)
            if r is not None:
                return r
        if key in self.rec and st.frames:
            return self.recursion(E, st, callee, args, dest, target)
        if name.startswith(LV):
            m = name[len(LV):]
            if m in ("object", "array", "string", "number", "bool", "value"):
                nd = node(E, st, args[0])
                ty = lv_parts(E, st, args[0])[1]
                want = {"object": 1, "array": 2, "string": 3, "number": 4, "bool": 5}.get(m)
                if want:
                    ok_ = st.facts.entails(c_eq(dtype_of(E, ty) - want))
                    self.unsafe_calls.append((ok_, "%s() of a value of another type in %s" % (m, st.frames[-1].body["path"])))
                pt = payload_tid(E, dest[3], "Ok")

                def mkok(s):
                    if m in ("object", "array"):
                        r = doc_region(nd)
                        sl = Sl(r, ZERO, A(("len", r[1]), 0, 1 << 62), E.u8)
                        # a nested container has at least its size and count
                        f = s.facts.assume(c_ge(sl.len - 5)) if nd[3] is not None else None
                        if f is not None:
                            s.facts = f
                        return E.rewrap(s, sl, pt)
                    return E.mk(("val", nd), pt) if m == "value" else E.mk(("val", m, nd), pt)
                if nd[3] is None and m in ("object", "array"):
                    pass
                return self.result(E, st, dest, target, mkok)
        if name == "yason::yason::object::Object::<'a>::lazy_get":
            o = doc_sl(E, st, args[0])
            k = key_content(E, st, args[1])
            rt = dest[3]
            ot = payload_tid(E, rt, "Ok")
            lt = payload_tid(E, ot, "Some")
            has = c_atom(("has", o.region, k))
            out = []
            none = st.copy()
            none.facts = none.facts.assume(c_not(has))
            if none.facts is not None:
                out += E.finish_call(none, dest, target, variant(E, rt, "Ok", [variant(E, ot, "None", [])]))
            pos = A(("member", o.region, k), 1, 1 << 62)
            st2 = st

            def some(s):
                f = s.facts.assume(has)
                if f is not None:
                    s.facts = f
                return variant(E, ot, "Some", [self.make_lv(E, lt, o, Sym(("dtype", o.region, pos), self.dt(E, lt)), pos)])
            return out + self.result(E, st2, dest, target, some)
        if name in ("yason::yason::Yason::data_type", "yason::yason::Yason::read_type"):
            y = doc_sl(E, st, args[0])
            pos = y.off + (args[1] if len(args) > 1 else ZERO)
            pt = payload_tid(E, dest[3], "Ok")
            return self.result(E, st, dest, target, lambda s: Sym(("dtype", y.region, pos), pt))
        return None

    def dt(self, E, lt):
        for f in E.fields(lt):
            if E.T[f].get("path") == "yason::data_type::DataType":
                return f

    def make_lv(self, E, lt, y, ty, pos):
        out = []
        for f in E.fields(lt):
            if E.T[f].get("path") == "yason::data_type::DataType":
                out.append(ty)
            elif E.tk(f) == "uint":
                out.append(pos)
            else:
                out.append(y)
        return Adt(lt, 0, out)

    def recursion(self, E, st, callee, args, dest, target):
        """A call of the function under analysis on other arguments: its effects
        are those the specification gives, its result is unknown."""
        n = self.fresh(st)
        lv = [a for a in args if is_lv(E, a)]
        ints = [a for a in args if isinstance(a, Lin)]
        snaps = tuple(E.snapshot(st, a) for a in args)
        ev = ("rec", callee["key"], node(E, st, lv[0]) if lv else None, ints[0] if ints else None, n, snaps, lv[0] if lv else None)
        out = []
        rt = dest[3]
        s = st.copy()
        e = E.mk(("recerr", n), payload_tid(E, rt, "Err"))
        vs = self.touch(E, s, args, n)
        s.emit(ev + (vs, False))
        s.emit(("fail", e))
        out += E.finish_call(s, dest, target, variant(E, rt, "Err", [e]))
        pt = payload_tid(E, rt, "Ok")
        vs = self.touch(E, st, args, n)
        st.emit(ev + (vs, True))
        v = c_atom(("found", n)) if E.tk(pt) == "bool" else E.mk(("recval", n), pt) if E.T[pt].get("size") != 0 else E.zst(pt)
        out += E.finish_call(st, dest, target, variant(E, rt, "Ok", [v]))
        return out

    def touch(self, E, st, args, n):
        """The vectors behind mutable references of the arguments grow; the new
        ones are returned."""
        seen = set()
        new = []

        def go(v, d):
            if isinstance(v, Ptr) and d < 6 and v not in seen and v.cell[0] != "el" and v.cell[0] != "konst":
                seen.add(v)
                x = E.read_cell(st, v.cell, v.path)
                if isinstance(x, VecV):
                    ln = A(("hlen", n, v.cell, v.path), 0, interp.ISIZE_MAX)
                    f = st.facts.assume(c_ge(ln - x.len))
                    if f is not None:
                        st.facts = f
                    new.append(x.with_(ln=ln, cap=None, writes=x.writes + (("rec", n),)))
                    E.write_cell(st, v.cell, v.path, new[-1])
                elif isinstance(x, Sym):
                    if x.tid is not None and E.T[x.tid]["k"] == "adt" and E.T[x.tid].get("adt") == "struct" and E.T[x.tid].get("local"):
                        for y in E.expand(x).f:
                            go(y, d + 1)
                elif isinstance(x, Adt):
                    for y in x.f:
                        go(y, d + 1)
                elif isinstance(x, Ptr):
                    go(x, d + 1)
            elif isinstance(v, Adt) and d < 6:
                for y in v.f:
                    go(y, d + 1)
        for a in args:
            go(a, 0)
        return tuple(new)


def doc_sl(E, st, v):
    v = unwrap(v)
    n = 0
    while isinstance(v, (Ptr, Sym)) and n < 5:
        if isinstance(v, Sym):
            v = unwrap(E.expand(v))
        else:
            v = unwrap(E.read_cell(st, v.cell, v.path))
        n += 1
    if not isinstance(v, Sl):
        raise interp.Unsupported("document %r" % (v,))
    return v


def key_content(E, st, v):
    v = unwrap(v)
    n = 0
    while isinstance(v, Ptr) and n < 5:
        v = unwrap(E.read_cell(st, v.cell, v.path))
        n += 1
    if isinstance(v, VecV):
        return (v.init, ZERO, v.len) if not v.writes else ("vec", v)
    if isinstance(v, Sl):
        return content(E, st, v)
    raise interp.Unsupported("key %r" % (v,))


# ------------------------------------------------------------------ traces
class Bad(Exception):
    """A difference between a path and the specified sequence."""


class Stop(Exception):
    """The path ends here (error or early exit)."""


EVENTS = ("rec", "loop", "fail", "act")


def events(log):
    return [e for e in log if e[0] in EVENTS]


def subst(E, x, m):
    return x.subst(m) if isinstance(x, Lin) else x


class Loopvar:
    """A loop variable that counts up by one, as an index from lo."""
    def __init__(self, cur, init, lo):
        self.f = cur - init + lo


def counters(L, lo, facts=None):
    out = []
    for loc, init, cur, nexts in L.carried:
        if nexts and all((n - cur).is_const() and (n - cur).c == 1 for n in nexts):
            out.append(cur - init + lo)
    return out


def loop_steps(E, L, lo):
    """Index expressions that visit lo, lo+1, ... in successive iterations."""
    out = []
    for loc, init, cur, nexts in L.carried:
        ds = {(n - cur) for n in nexts}
        if len(ds) == 1:
            d = next(iter(ds))
            if d.is_const() and d.c >= 1:
                k = d.c
                q = cur - init
                if k == 1:
                    f = q + lo
                else:
                    continue
                if f not in out:
                    out.append(f)
    # counters whose increment is only known through the facts of the path
    for loc, init, cur, nexts in L.carried:
        if nexts and all(s.facts.entails(c_eq(n - cur - 1)) for n, (s, _) in zip(nexts, L.backs)):
            f = cur - init + lo
            if f not in out:
                out.append(f)
    return out


class Trace:
    """Matches the events of one path against specified items.

    Items: ("rec", node, step) one recursive call; ("each", lo, hi, body) body(S, i)
    gives the items of index i for lo <= i <= hi; ("act", f) an event accepted by f.
    """
    def __init__(self, E, S, mode):
        self.E, self.S, self.mode = E, S, mode
        self.found = []

    def run(self, items, evs):
        """True if all items were performed; False if the path ended early
        because of an error. Early exits on success are reported with found."""
        evs = list(evs)
        for k, it in enumerate(items):
            if it[0] == "each":
                r = self.each(it, evs)
            elif it[0] in ("rec", "act"):
                r = self.one(it, evs)
            elif it[0] == "any":
                r = self.any_of(it, evs)
            else:
                raise Bad("specification")
            if r is not True:
                return r
        self.skip_idle(evs)
        if evs:
            if evs[0][0] == "fail":
                return "fail"
            raise Bad("performs %s although nothing more is due" % show_ev(evs[0]))
        return True

    def idle(self, e):
        """A loop without any event of interest."""
        return e[0] == "loop" and all(self.idle(x) for s, lg in self.E.loops[e[2]].backs for x in events(lg))

    def skip_idle(self, evs):
        while evs and self.idle(evs[0]):
            evs.pop(0)

    def one(self, it, evs):
        self.skip_idle(evs)
        if not evs:
            return ("stopped", it)
        e = evs.pop(0)
        if e[0] == "fail":
            return "fail"
        if e[0] == "loop":
            raise Bad("loops where %s is due" % show_item(it))
        if it[0] == "act":
            if e[0] != "act":
                raise Bad("does %s where %s is due" % (show_ev(e), show_item(it)))
            if it[1] is not None and e[1] != it[1]:
                raise Bad("calls %s where %s is due" % (e[1], it[1]))
            it[2](self.S, e)
            return True if e[-1] else "fail"
        self.same(it, e)
        if not e[-1]:
            return "fail"
        self.found.append(c_atom(("found", e[4])))
        return True

    def same(self, it, e):
        if e[0] != "rec":
            raise Bad("does %s where %s is due" % (show_ev(e), show_item(it)))
        if not node_eq(self.S.facts, it[1], e[2]):
            raise Bad("continues with %s instead of %s" % (show_node(e[2]), show_node(it[1])))
        if it[2] is not None and not self.S.facts.entails(c_eq(it[2] - e[3])):
            raise Bad("continues with step %r instead of %r" % (e[3], it[2]))

    def each(self, it, evs):
        _, lo, hi, body = it
        E = self.E
        self.skip_idle(evs)
        if not evs or evs[0][0] != "loop":
            if evs and evs[0][0] == "fail":
                return "fail"
            # no iteration: the range must be empty, or the path stopped
            if self.S.facts.entails(c_ge(lo - hi - 1)):
                return True
            if self.S.facts.entails(c_eq(lo - hi)) and evs and evs[0][0] == "rec":
                for x in body(self.S, lo):
                    r = self.one(x, evs)
                    if r is not True:
                        return r
                return True
            if evs:
                raise Bad("does %s where each element is due" % show_ev(evs[0]))
            return ("stopped", it)
        e = evs.pop(0)
        L = E.loops[e[2]]
        fs = loop_steps(E, L, lo)
        err = None
        splits = tuple(self.S.splits)
        for f in fs:
            try:
                self.check_loop(L, f, lo, hi, body, splits)
            except Bad as b:
                err = b
                continue
            return self.after_loop(L, f, hi, body, evs)
        raise err or Bad("the loop has no counter")

    def check_loop(self, L, f, lo, hi, body, splits):
        """Every completed iteration does what its index asks for."""
        E = self.E
        for s, lg in L.backs:
            for exp, fa in explore(E, lambda S: self.iteration(S, f, lo, hi, body, events(lg)), s.facts, splits=splits):
                pass

    def iteration(self, S, f, lo, hi, body, evs):
        if not S.facts.entails(c_and(c_ge(f - lo), c_ge(hi - f))):
            g = S.facts
            if not g.entails(c_ge(f - lo)):
                raise Bad("an iteration is not known to stay above the first index")
            raise Bad("an iteration is not known to stay inside the range")
        t = Trace(self.E, S, self.mode)
        r = t.run(body(S, f), evs)
        if r is not True:
            raise Bad("an iteration ends without %s" % (show_item(r[1]) if isinstance(r, tuple) else "its work"))
        if self.mode == "exists":
            for c in t.found:
                if not S.facts.entails(c_not(c)):
                    raise Bad("continues after a match")
        return ("done",)

    def after_loop(self, L, f, hi, body, evs):
        S = self.S
        if S.facts.entails(c_ge(f - hi - 1)):
            return True
        # the path left the loop in the middle of an iteration
        if not evs:
            return ("stopped", ("each",))
        if not S.facts.entails(c_ge(hi - f)):
            raise Bad("the loop may stop before the last element")
        items = body(S, f)
        if not items:
            raise Bad("leaves the loop where nothing is due")
        r = self.run_partial(items, evs)
        if r == ("stopped", ("each",)) and S.facts.entails(c_ge(f - hi)):
            return True         # left behind the last index
        return r

    def run_partial(self, items, evs):
        for k, it in enumerate(items):
            r = self.each(it, evs) if it[0] == "each" else self.one(it, evs)
            if r is not True:
                return r
        return ("stopped", ("each",))

    def any_of(self, it, evs):
        """("any", lo, hi, cond(S, i), items): the items if some index satisfies
        the condition. Decided by a loop without events that stops at the first."""
        _, lo, hi, cond, items = it
        E = self.E
        if not evs or evs[0][0] != "loop":
            raise Bad("does not examine every part of the list")
        L = E.loops[evs.pop(0)[2]]
        err = None
        splits = tuple(self.S.splits)
        for f in loop_steps(E, L, lo):
            try:
                for s, lg in L.backs:
                    for exp, fa in explore(E, lambda S: ("c", cond(S, f)), s.facts, splits=splits):
                        if exp[1] is not False:
                            raise Bad("continues the search after a part that matches")
                if self.S.facts.entails(c_ge(f - hi - 1)):
                    if evs:
                        raise Bad("does %s although no part of the list matches" % show_ev(evs[0]))
                    return True
                if not self.S.facts.entails(c_ge(hi - f)):
                    raise Bad("the search may stop before the last part")
                if cond(self.S, f) is not True:
                    raise Bad("stops the search at a part that does not match")
            except Bad as b:
                err = b
                continue
            for x in items:
                r = self.one(x, evs)
                if r is not True:
                    return r
            return True
        raise err or Bad("the search has no counter")


def node_eq(facts, a, b):
    if a == b:
        return True
    if a is None or b is None or a[3] != b[3]:
        return False
    if isinstance(a[2], Lin) and isinstance(b[2], Lin) and region_eq(facts, a[1], b[1]):
        return lin_same(facts, a[2], b[2])
    return False


def region_eq(facts, a, b):
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "sym":
        x, y = a[1], b[1]
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == "doc":
            return node_eq(facts, x[1], y[1])
    return False


def lin_same(facts, a, b):
    """Equal positions, also when they are read through equal positions."""
    if facts.entails(c_eq(a - b)):
        return True
    d = a - b
    if d.c == 0 and len(d.t) in (2, 4):
        ps = [x for x, k in d.t if k == 1]
        ns = [x for x, k in d.t if k == -1]
        if len(ps) != len(ns):
            return False
        for p in ps:
            if not any(atom_same(facts, p, n) for n in ns):
                return False
        return True
    return False


def atom_same(facts, p, n):
    x, y = ATOM_KEY[p], ATOM_KEY[n]
    if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == "le" and x[1] == y[1] and x[3:] == y[3:]:
        return lin_same(facts, x[2], y[2])
    return False


def show_node(n):
    if n is None:
        return "nothing"
    if n[3] is None:
        return "the value itself"
    return "the value at %s of %s" % (str(n[2])[:120], str(n[1])[:80])


def show_item(it):
    if it[0] == "rec":
        return "the recursive call"
    if it[0] == "each":
        return "each element"
    if it[0] == "act":
        return it[1] or "the call for this element"
    return str(it[0])


def show_ev(e):
    if e[0] == "rec":
        return "a recursive call on %s" % show_node(e[2])
    if e[0] == "loop":
        return "a loop"
    return e[1] if e[0] == "act" else e[0]
