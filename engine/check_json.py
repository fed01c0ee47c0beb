"""C16, C29: import of JSON."""
from terms import *
from spec import *
from api import *
from check_query import groups_from, ret_case, justified, fails_of, case, part
from check_equal import args_in
import buildcut
import callgraph
import fmttext
import interp
import models
import par
from models import variant, payload_tid
from interp import is_cond

JV = "serde_json::value::Value"
KINDS = ("Null", "Bool", "Number", "String", "Array", "Object")
ROOTS = ("parse", "parse_to", "try_from")
OPS = {"Null": "null", "Bool": "bool", "Number": "number", "String": "string"}


class Bad29(Bad):
    """A difference in how a number is imported."""


def adt_path(E, tid):
    """The type behind references."""
    t = E.T[tid]
    n = 0
    while t["k"] in ("ref", "ptr") and n < 4:
        t = E.T[t["e"]]
        n += 1
    return t.get("path"), t


def text_region(num):
    return ("sym", ("numtext", num))


def text_len(num):
    return A(("len", ("numtext", num)), 1, 1 << 40)


class JsonCut:
    """The JSON library, number parsing and text formatting as events."""
    def __init__(self):
        self.build = buildcut.BuildCut()

    def __call__(self, api, E, st, callee, args, dest, target_, span):
        name = callee.get("path") or callee["decl"]
        seg = callee.get("name") or name.rsplit("::", 1)[-1]
        if name.startswith("serde_json::de::from_"):
            return self.parse(api, E, st, args, dest, target_)
        if "serde_json::map::" in name:
            r = self.map(E, st, seg, name, args, dest, target_)
            if r is not None:
                return r
        if name == "serde_json::number::Number::as_str":
            t = self.number(E, st, args[0])
            return E.finish_call(st, dest, target_, Sl(text_region(t), ZERO, text_len(t), E.u8))
        if name.startswith("core::fmt::rt::Argument") and seg == "new_display":
            return E.finish_call(st, dest, target_, Sym(("display", buildcut.target(E, st, args[0])), dest[3]))
        if name == "core::fmt::Arguments::<'a>::new":
            tpl = fmttext.const_bytes(E, st, args[0])
            av = buildcut.target(E, st, args[1])
            if tpl is None or not isinstance(av, interp.Arr):
                return None
            return E.finish_call(st, dest, target_, Sym(("fmtargs", tuple(fmttext.template(tpl)), tuple(av.e)), dest[3]))
        if seg == "write_fmt" and len(args) == 2:
            x = args[1]
            v = buildcut.target(E, st, args[0])
            c, vec = buildcut.vec_behind(E, st, args[0])
            if isinstance(v, Adt) and len(v.f) == 1:
                # a String is its vector
                c, vec = (c[0], c[1] + (0,)), v.f[0]
            t = self.shown(E, x)
            if t is None or not isinstance(vec, VecV):
                return None
            rt = dest[3]
            out = []
            s = st.copy()
            e = E.mk(("fmterr", api.fresh(s)), payload_tid(E, rt, "Err"))
            s.emit(("fail", e))
            s.emit(("note", "fmterr"))
            out += E.finish_call(s, dest, target_, variant(E, rt, "Err", [e]))
            n = text_len(t)
            E.write_cell(st, c[0], c[1], vec.with_(ln=vec.len + n, cap=None, writes=vec.writes + (("w", vec.len, n, ("copy", text_region(t), ZERO)),)))
            return out + E.finish_call(st, dest, target_, variant(E, rt, "Ok", [E.zst(payload_tid(E, rt, "Ok"))]))
        if seg == "to_string" and (callee.get("trait") == "alloc::string::ToString" or "ToString" in name):
            v = buildcut.target(E, st, args[0])
            if not self.is_number(E, v):
                return None
            return E.finish_call(st, dest, target_, self.string_of(E, v, dest[3]))
        if name == "alloc::fmt::format" or name == "alloc::fmt::format::format_inner":
            t = self.shown(E, args[0])
            if t is None:
                return None
            return E.finish_call(st, dest, target_, self.string_of(E, Sym(t, None), dest[3]))
        if name.startswith("decimal_rs::parse::") and seg == "from_str":
            return self.decimal(api, E, st, args, dest, target_)
        return self.build(api, E, st, callee, args, dest, target_, span)

    def is_number(self, E, v):
        return isinstance(v, (Sym, Adt)) and v.tid is not None and E.T[v.tid].get("path") == "serde_json::number::Number"

    def number(self, E, st, v):
        x = buildcut.target(E, st, v)
        if not isinstance(x, Sym):
            raise interp.Unsupported("number %r" % (x,))
        return x.term

    def shown(self, E, x):
        """The number whose text alone the arguments format."""
        if not isinstance(x, Sym) or not isinstance(x.term, tuple) or x.term[0] != "fmtargs":
            return None
        _, tpl, av = x.term
        if list(tpl) != [None] or len(av) != 1:
            return None
        d = av[0]
        if not isinstance(d, Sym) or d.term[0] != "display" or not self.is_number(E, d.term[1]) or not isinstance(d.term[1], Sym):
            return None
        return d.term[1].term

    def string_of(self, E, v, tid):
        """A new string with the text of a number."""
        if not isinstance(v, Sym):
            raise interp.Unsupported("text of %r" % (v,))
        n = text_len(v.term)
        x = E.mk(("numstr", v.term), tid)
        x = E.expand(x) if isinstance(x, Sym) else x
        vec = x
        while isinstance(vec, Adt):
            vec = vec.f[0]
        return put_vec(x, interp.VecV(vec.etid, n, None, None, (("w", ZERO, n, ("copy", text_region(v.term), ZERO)),)))

    def parse(self, api, E, st, args, dest, target_):
        n = api.fresh(st)
        rt = dest[3]
        c = key_content(E, st, args[0])
        s = st.copy()
        e = E.mk(("jsonerr", n), payload_tid(E, rt, "Err"))
        s.emit(("act", "parse", None, (c,), n, None, (), False))
        s.emit(("fail", e))
        out = E.finish_call(s, dest, target_, variant(E, rt, "Err", [e]))
        st.emit(("act", "parse", None, (c,), n, None, (), True))
        return out + E.finish_call(st, dest, target_, variant(E, rt, "Ok", [Sym(("json", n), payload_tid(E, rt, "Ok"))]))

    def map(self, E, st, seg, name, args, dest, target_):
        it = buildcut.target(E, st, args[0])
        if seg in ("len", "is_empty") and isinstance(it, Sym):
            n = A(("maplen", it.term), 0, 1 << 60)
            return E.finish_call(st, dest, target_, n if seg == "len" else c_eq(n))
        if seg in ("iter", "into_iter") and isinstance(it, Sym):
            return E.finish_call(st, dest, target_, Adt(dest[3], 0, [Sym(("entries", it.term), None), ZERO]))
        if seg in ("next", "len") and isinstance(it, Adt) and len(it.f) == 2 and isinstance(it.f[0], Sym) and it.f[0].term[0] == "entries":
            m, i = it.f[0].term[1], it.f[1]
            n = A(("maplen", m), 0, 1 << 60)
            if seg == "len":
                return E.finish_call(st, dest, target_, n - i)
            out = []
            s = st.copy()
            f = s.facts.assume(c_ge(i - n))
            if f is not None and not f.contradictory():
                s.facts = f
                out += E.finish_call(s, dest, target_, variant(E, dest[3], "None", []))
            f = st.facts.assume(c_ge(n - i - 1))
            if f is not None and not f.contradictory():
                st.facts = f
                p = args[0]
                while isinstance(E.read_cell(st, p.cell, p.path), Ptr):
                    p = E.read_cell(st, p.cell, p.path)
                E.write_cell(st, p.cell, p.path, Adt(it.tid, it.var, [it.f[0], i + 1]))
                pt = payload_tid(E, dest[3], "Some")
                kt, vt = E.fields(pt)
                pair = Adt(pt, 0, [E.mk(("entrykey", m, i), kt), E.mk(("entryval", m, i), vt)])
                out += E.finish_call(st, dest, target_, variant(E, dest[3], "Some", [pair]))
            return out
        return None

    def decimal(self, api, E, st, args, dest, target_):
        """A decimal, or one of the two errors a JSON number's text can cause."""
        n = api.fresh(st)
        rt = dest[3]
        c = key_content(E, st, args[0])
        et = payload_tid(E, rt, "Err")
        out = []
        for v in E.T[et]["variants"]:
            if v["n"] not in ("Underflow", "Overflow"):
                continue
            s = st.copy()
            e = variant(E, et, v["n"], [])
            s.emit(("conv", c, n, v["n"]))
            if v["n"] == "Overflow":
                s.emit(("fail", e))
            out += E.finish_call(s, dest, target_, variant(E, rt, "Err", [e]))
        st.emit(("conv", c, n, "Ok"))
        return out + E.finish_call(st, dest, target_, variant(E, rt, "Ok", [E.mk(("decimal", n), payload_tid(E, rt, "Ok"))]))


def put_vec(x, new):
    if isinstance(x, VecV):
        return new
    return Adt(x.tid, x.var, [put_vec(x.f[0], new)] + list(x.f[1:]))


# ------------------------------------------------------------------ recursion
class JsonApi(Api):
    def __init__(self, F, rec):
        Api.__init__(self, F, rec, extra=JsonCut())

    def recursion(self, E, st, callee, args, dest, target):
        n = self.fresh(st)
        body = E.fns[callee["key"]]
        b, what, key = roles_of(E, st, body, args)
        rt = dest[3]
        ev = ("rec", callee["key"], b, what, key, n)
        out = []
        s = st.copy()
        e = E.mk(("recerr", n), payload_tid(E, rt, "Err"))
        self.touch(E, s, args, n)
        s.emit(ev + (False,))
        s.emit(("fail", e))
        out += E.finish_call(s, dest, target, variant(E, rt, "Err", [e]))
        self.touch(E, st, args, n)
        st.emit(ev + (True,))
        pt = payload_tid(E, rt, "Ok")
        return out + E.finish_call(st, dest, target, variant(E, rt, "Ok", [E.zst(pt) if E.T[pt].get("size") == 0 else E.mk(("recval", n), pt)]))


def roles_of(E, st, body, args):
    """(builder, what is imported, key) of the arguments of an import step."""
    b = what = key = None
    for i, a in enumerate(args):
        tid = body["locals"][i + 1]
        p, t = adt_path(E, tid)
        if buildcut.is_builder_tid(E, tid):
            x = buildcut.target(E, st, a)
            b = builder_id(x)
        elif p == JV:
            what = ("val", buildcut.target(E, st, a))
        elif p == "serde_json::map::Map":
            what = ("map", buildcut.target(E, st, a))
        elif t["k"] == "slice" and adt_path(E, t["e"])[0] == JV or p == "alloc::vec::Vec" and not is_text_vec(E, t):
            what = ("seq",) + seq_of(E, st, a)
        elif t["k"] == "str" or p == "alloc::string::String" and not E.T[tid].get("mut"):
            key = key_content(E, st, a)
    if b is None or what is None:
        raise interp.Unsupported("an import step without builder or value")
    return b, what, key


def is_text_vec(E, t):
    return E.u8 in (t.get("args") or [])


def builder_id(x):
    return x.term if isinstance(x, Sym) else x


def seq_of(E, st, v):
    c = key_content(E, st, v)
    if c[0] == "vec":
        raise interp.Unsupported("a list that was changed")
    return c


def same_seq(facts, a, b):
    return region_eq(facts, a[0], b[0]) and facts.entails(c_eq(a[1] - b[1])) and facts.entails(c_eq(a[2] - b[2]))


# ------------------------------------------------------------------ the rule
class Import:
    """Matches the calls of a path with those that import a value."""
    def __init__(self, E, st):
        self.E, self.st = E, st
        self.numbers = 0

    def next(self, T, what):
        while T and T[0][0] == "loop" and self.idle(T[0]):
            T.pop(0)
        if not T:
            raise Bad("does nothing where %s is due" % what)
        e = T.pop(0)
        if e[0] == "loop":
            raise Bad("loops where %s is due" % what)
        if e[0] == "fail":
            raise Bad("succeeds although a step failed")
        return e

    def idle(self, e):
        return all(self.idle(x) if x[0] == "loop" else False for s, lg in self.E.loops[e[2]].backs for x in evs_of(lg))

    def end(self, T):
        while T and T[0][0] == "loop" and self.idle(T[0]):
            T.pop(0)
        if T:
            raise Bad("does %s although nothing more is due" % show(T[0]))

    def act(self, S, T, ops, b, what):
        e = self.next(T, what)
        if e[0] != "act" or e[1] not in ops:
            raise Bad("does %s where %s is due" % (show(e), what))
        if b is not None and e[2] != b:
            raise Bad("calls %s of another builder" % e[1])
        if not e[-1]:
            raise Bad("succeeds although a step failed")
        return e

    def number(self, S, T, v):
        """The conversion of a JSON number: its value."""
        e = self.next(T, "a number's conversion")
        if e[0] != "conv":
            raise Bad("does %s where the conversion of a number is due" % show(e))
        c = e[1]
        if c[0] == "vec" or not (c[0] == text_region(v.term) and S.facts.entails(c_eq(c[1])) and S.facts.entails(c_eq(c[2] - text_len(v.term)))):
            raise Bad29("converts another text than the number's own")
        self.numbers += 1
        return e

    def is_number(self, S, x, e):
        """Whether the value is what the conversion asks for."""
        if e[3] == "Ok":
            return isinstance(x, (Sym, Adt)) and wraps(x, ("decimal", e[2]))
        if e[3] == "Underflow":
            return is_zero(x)
        return False

    def scalar(self, S, T, v, k, b, prefix, suffix, key):
        E = self.E
        conv = None
        if k == "Number":
            conv = self.number(S, T, part(E, v, k, 0))
        e = self.act(S, T, tuple(prefix + OPS[k] + s for s in suffix), b, "the value of kind %s" % k)
        vals = list(e[3])
        if key is not None:
            self.key(S, vals, key)
        vals = [x for x in vals if not is_buffer(x, e)]
        if k == "Null":
            return e
        if not vals:
            raise Bad("passes no value")
        x = vals[0]
        y = part(E, v, k, 0)
        if k == "Bool":
            if not (is_cond(x) and S.facts.entails(c_or(c_not(x), y)) and S.facts.entails(c_or(x, c_not(y)))):
                raise Bad("imports another truth value")
        elif k == "Number":
            if not self.is_number(S, x, conv):
                raise Bad29("does not import the converted number" if conv[3] == "Ok" else "does not import zero for a number too small to represent")
        elif k == "String":
            c = text_id(E, self.st, y)
            if not (isinstance(x, tuple) and x[0] == "text" and x[1][0] != "vec" and same_seq(S.facts, x[1], c)):
                raise Bad("imports another text")
        return e

    def key(self, S, vals, key):
        if not vals:
            raise Bad("passes no key")
        x = vals.pop(0)
        if not (isinstance(x, tuple) and x[0] == "text" and x[1][0] != "vec" and same_seq(S.facts, x[1], key)):
            raise Bad("imports the value under another key")

    def value(self, S, T, v, b, key):
        """One value pushed into the builder b."""
        E = self.E
        if T and T[0][0] == "rec" and T[0][3][0] == "val":
            e = T.pop(0)
            if e[2] != b or e[3][1] != v or key is not None and (e[4] is None or not same_seq(S.facts, e[4], key)):
                raise Bad("imports another value, or into another builder")
            return k_ok(e)
        k = case(S, E, v)
        if k in OPS:
            self.scalar(S, T, v, k, b, "push_", ("",), key)
            return
        e = self.act(S, T, ("push_" + k.lower(),), b, "the value of kind %s" % k)
        vals = list(e[3])
        if key is not None:
            self.key(S, vals, key)
        self.container(S, T, part(E, v, k, 0), k, e, vals)

    def container(self, S, T, c, k, e, vals):
        """Element count, members and end of a container."""
        E = self.E
        vals = [x for x in vals if not is_buffer(x, e)]
        n = self.count(c, k)
        if not vals or not isinstance(vals[0], Lin) or not S.facts.entails(c_eq(vals[0] - n)):
            raise Bad("declares %s elements instead of %r" % (show_val(E, vals[0]) if vals else "no", n))
        if k == "Object":
            if len(vals) < 2 or not is_cond(vals[1]) or S.facts.feasible(vals[1]):
                raise Bad("declares the keys to be sorted")
        nb = ("builder", e[4])
        if T and T[0][0] == "rec" and T[0][3][0] in ("seq", "map"):
            r = T.pop(0)
            if r[2] != nb:
                raise Bad("imports the elements into another builder")
            if not self.same(S, r[3], c, k):
                raise Bad("imports another container's elements")
            k_ok(r)
        else:
            self.members(S, T, c, k, nb)
        self.act(S, T, ("finish",), nb, "the end of the container")

    def count(self, c, k):
        if k == "Object":
            return A(("maplen", c.term), 0, 1 << 60)
        return text_id(self.E, self.st, c)[2]

    def same(self, S, what, c, k):
        if k == "Object":
            return what[0] == "map" and what[1] == c
        return what[0] == "seq" and same_seq(S.facts, what[1:], c if isinstance(c, tuple) else text_id(self.E, self.st, c))

    def element(self, c, k, i):
        """(value, key) of element i."""
        E = self.E
        if k == "Object":
            kt, vt = self.entry_types(c)
            st = self.st.copy()
            kv = E.mk(("entrykey", c.term, i), kt)
            return buildcut.target(E, st, E.mk(("entryval", c.term, i), vt)), key_content(E, st, kv)
        r, off, n = c if isinstance(c, tuple) else text_id(E, self.st, c)
        return E.read_elem(self.st.copy(), r, off + i.scale(E.stride(self.vt, self.vt)), self.vt), None

    def entry_types(self, c):
        return self.kvt

    def members(self, S, T, c, k, b):
        E = self.E
        n = self.count(c, k) if not isinstance(c, tuple) else c[2]
        j = ZERO
        while True:
            while T and T[0][0] == "loop" and self.idle(T[0]):
                T.pop(0)
            if T and T[0][0] == "loop":
                j = self.loop(S, T, c, k, b, j, n)
                continue
            if j == ZERO and T and T[0][0] == "rec" and T[0][3][0] in ("seq", "map"):
                r = T.pop(0)
                if r[2] != b or not self.same(S, r[3], c, k):
                    raise Bad("imports another container's elements, or into another builder")
                k_ok(r)
                return
            if S.facts.entails(c_ge(j - n)):
                return
            if not T or not S.facts.entails(c_ge(n - 1 - j)):
                raise Bad("imports %r of %r elements" % (j, n))
            v, key = self.element(c, k, j)
            self.value(S, T, v, b, key)
            j = j + 1

    def loop(self, S, T, c, k, b, j, n):
        E = self.E
        L = E.loops[T.pop(0)[2]]
        splits = tuple(S.splits)
        err = None
        for f in loop_steps(E, L, j):
            try:
                for s, lg in L.backs:
                    def step(S2):
                        if not S2.facts.entails(c_and(c_ge(f - j), c_ge(n - 1 - f))):
                            raise Bad("an iteration is not known to stay inside the container")
                        v, key = self.element(c, k, f)
                        T2 = evs_of(lg)
                        self.value(S2, T2, v, b, key)
                        self.end(T2)
                        return ("done",)
                    for r, fa in explore(E, step, s.facts, splits=splits):
                        pass
                return f
            except Bad as x:
                err = x
        raise err or Bad("the elements are not visited one after the other")


def k_ok(e):
    if not e[-1]:
        raise Bad("succeeds although a step failed")


def evs_of(log):
    return [e for e in log if e[0] in ("rec", "loop", "fail", "act", "conv")]


def show(e):
    if e[0] == "rec":
        return "a recursive import"
    return {"loop": "a loop", "conv": "the conversion of a number", "fail": "nothing (a failed step)"}.get(e[0]) or e[1]


def text_id(E, st, v):
    c = key_content(E, st, expanded(E, v))
    if c[0] == "vec":
        raise interp.Unsupported("a text that was changed")
    return c


def expanded(E, v):
    v = unwrap(v)
    n = 0
    while isinstance(v, Sym) and n < 5:
        v = unwrap(E.expand(v))
        n += 1
    return v


def is_buffer(x, e):
    """The buffer a document is built into."""
    return isinstance(x, VecV) or e[5] is not None and isinstance(x, tuple) and x[0] == "text" and x[1] == (e[5][1].init, ZERO, e[5][1].len)


def wraps(x, term):
    while isinstance(x, Adt) and len(x.f) == 1:
        x = x.f[0]
    if not isinstance(x, Sym):
        return False
    t = x.term
    return t == term or isinstance(t, tuple) and t[0] == "f" and t[1] == term


def is_zero(x):
    if isinstance(x, Lin):
        return x == ZERO
    if is_cond(x):
        return x is False
    if isinstance(x, interp.Arr):
        return all(is_zero(y) for y in x.e)
    return isinstance(x, Adt) and bool(x.f) and all(is_zero(y) for y in x.f)


# ------------------------------------------------------------------ analyses
def engine(F, api):
    E = interp.Engine(F, models, cuts=api, max_states=400000)
    E.unroll_k = 0
    E.heads = {}
    return E


def setup(E, I):
    """The types of values and entries."""
    for i, t in enumerate(E.T):
        if t["k"] == "adt" and t.get("path") == JV:
            I.vt = i
    kt = vt = None
    for i, t in enumerate(E.T):
        if t["k"] == "ref" and not t.get("mut"):
            p = E.T[t["e"]].get("path")
            if p == JV:
                vt = i
            elif p == "alloc::string::String":
                kt = i
    I.kvt = (kt, vt)


def justified_json(E, o, err):
    n = vname(E, err) if isinstance(err, Adt) else None
    if n == "NumberError" and isinstance(err.f[0], Adt):
        m = vname(E, err.f[0])
        convs = [e for e in o.state.log if e[0] == "conv"]
        if m == "Overflow":
            return bool(convs) and convs[-1][3] == "Overflow"
        return m == "FormatError" and ("note", "fmterr") in o.state.log
    if any(e[0] == "conv" and e[3] == "Overflow" for e in o.state.log):
        return False
    return justified(E, o, err)


def too_many(E, o, err, ns):
    """The error of an element count that does not fit."""
    n = vname(E, err) if isinstance(err, Adt) else None
    return n is not None and "Many" in n and any(o.state.facts.entails(c_ge(x - 65536)) for x in ns)


def counts_in(facts):
    from readers import fact_atoms
    out = []
    for a in fact_atoms(facts):
        k = ATOM_KEY[a]
        if isinstance(k, tuple) and k[0] in ("maplen", "len", "vlen"):
            out.append(lin_atom(a))
    return out


def judge(E, R, api, outs, spec):
    n = {}
    for o in outs:
        if o.kind == "unsupported":
            yield None, "undecided:" + o.msg[:60], "%s in %s" % (o.msg, o.stack[-1] if o.stack else "?"), 0
            continue
        if o.kind == "panic":
            yield None, "panic:" + o.msg[:60], "may panic (%s, %s)" % (o.msg, o.span.split(":")[0]), 0
            continue
        try:
            for k, fa in explore(E, lambda S: ("k", spec(S, o)), o.state.facts):
                n[k[1]] = n.get(k[1], 0) + 1
        except Bad29 as b:
            yield "C29", "number:" + str(b)[:70], str(b), 0
        except Bad as b:
            t = str(b)
            if "fails with" in t or "a step failed" in t:
                yield "C24", "error:" + t[:70], t, 0
                cv = [e for e in o.state.log if e[0] == "conv" and e[3] == "Overflow"]
                if cv:
                    yield "C29", "number:" + t[:70], t, 0
                elif "although" in t:
                    yield "C16", "import:" + t[:70], t, 0
            else:
                yield "C16", "import:" + t[:70], t, 0
    for k in E.unmodelled:
        yield None, "undecided:" + str(k)[:60], "call of %s is not modelled" % k, 0
    R.use(E)
    for k, c in n.items():
        yield "ok", None, k, c


def check_head(F, R, key, group):
    """One step of the recursion: the elements of one container."""
    api = JsonApi(F, group)
    E = engine(F, api)
    body = E.fns[key]
    args = [E.mk(("arg", i), body["locals"][i + 1]) for i in range(body["argc"])]
    st = E.start(key, args)
    b, what, k = roles_of(E, st, body, args)
    outs = E.run(st)
    box = [0]

    def spec(S, o):
        kind, val = ret_case(E, o)
        if kind == "Err":
            if not justified_json(E, o, val) and not too_many(E, o, val, counts_in(o.state.facts)):
                raise Bad("fails with %s, which is not the error of a failed step" % show_val(E, val))
            return "error"
        I = Import(E, o.state)
        setup(E, I)
        T = evs_of(o.state.log)
        if what[0] == "val":
            I.value(S, T, what[1], b, k)
        else:
            c = what[1:] if what[0] == "seq" else what[1]
            I.members(S, T, c, "Object" if what[0] == "map" else "Array", b)
        I.end(T)
        box[0] += I.numbers
        return what[0]

    yield from judge(E, R, api, outs, spec)


def check_outer(F, R, key, group):
    api = JsonApi(F, group)
    E = engine(F, api)
    body = E.fns[key]
    args = [E.mk(("arg", i), body["locals"][i + 1]) for i in range(body["argc"])]
    st = E.start(key, args)
    value = vecs = text = None
    for i, a in enumerate(args):
        p, t = adt_path(E, body["locals"][i + 1])
        if p == JV:
            value = buildcut.target(E, st, a)
        elif p == "alloc::vec::Vec":
            vecs = a
        else:
            text = i
    outs = E.run(st)

    def spec(S, o):
        kind, val = ret_case(E, o)
        if kind == "Err":
            if not justified_json(E, o, val) and not too_many(E, o, val, counts_in(o.state.facts)):
                raise Bad("fails with %s, which is not the error of a failed step" % show_val(E, val))
            return "error"
        I = Import(E, o.state)
        setup(E, I)
        T = evs_of(o.state.log)
        v = value
        if v is None:
            e = I.act(S, T, ("parse",), None, "reading the text")
            c = e[3][0]
            if c[0] == "vec" or c[1] != ZERO or args_in(c[0]) != {text} or c[2] != A(("len", c[0][1]), 0, 1 << 62) and not whole(c):
                raise Bad("reads another text than the one given")
            v = Sym(("json", e[4]), I.vt)
        k = case(S, E, v)
        suffix = ("_with_vec",) if vecs is not None else ("",)
        if k in OPS:
            e = I.scalar(S, T, v, k, None, "", suffix, None)
        else:
            # the event that creates the document's builder
            e = I.act(S, T, ("try_new",), None, "the value of kind %s" % k)
            f = T[-1] if T else None
            I.container(S, T, part(E, v, k, 0), k, e, list(e[3]))
            last = f
        if vecs is not None and not (e[5] is not None and e[5][0] == (vecs.cell, vecs.path)):
            raise Bad("does not build into the buffer given")
        I.end(T)
        done = e if k in OPS else last
        if not returns(E, o, val, done, body):
            raise Bad("does not return the document built")
        return k

    yield from judge(E, R, api, outs, spec)


def whole(c):
    """All of a text: its length is the text's own."""
    a = single_atom(c[2])
    k = ATOM_KEY[a] if a is not None else None
    return isinstance(k, tuple) and k[0] in ("len", "vlen")


def returns(E, o, val, e, body):
    if isinstance(val, Sym):
        return val.term == ("built", e[4])
    t = repr(val)
    return repr(("built", e[4])) in t or "built(%d)" % e[4] in t


def public_roots(F):
    out = []
    for r in F["roots"]:
        k = r["key"]
        if k not in F["fns"]:
            continue
        p = F["fns"][k]["path"]
        if "json" in p and r["name"] in ROOTS:
            out.append(k)
    return sorted(set(out))


def job(F, key, group, outer):
    st = par.Stats()
    return list((check_outer if outer else check_head)(F, st, key, group)), st.plain()


def run(F, R, prop):
    roots = public_roots(F)
    g = set()
    for k in roots:
        g |= groups_from(F, k)
    if not g:
        R.bad("missing:recursion", "no recursive import of containers is reached from the public functions")
        return
    jobs = [(job, (F, k, g, False)) for k in sorted(g)] + [(job, (F, k, g, True)) for k in roots]
    n = 0
    for (fn, (_, k, _g, _o)), (st, r) in zip(jobs, par.run_jobs(jobs)):
        nm = k.split("#")[0]
        if st == "error":
            R.bad("undecided:%s" % nm, "%s: %s" % (nm, r))
            continue
        R.use(par.Stats.of(r[1]))
        for p, key, text, c in r[0]:
            if p == "ok":
                R.good("cases agree", c, {"function": nm, "case": text, "paths": c})
                n += c
            elif p is None or p == prop:
                R.bad("%s:%s" % (key, nm), "%s: %s" % (nm, text))
    R.floor("public import functions", len(roots), 3)
    R.floor("recursive import steps", len(g), 2)
    R.floor("cases compared", n, 40)


def C16(F, R):
    R.rules.append("every path of every import function is matched with the calls that encode the JSON value: the builder call of each value's kind with the value's own content, in order and under its own key, containers declared with their element count and ended; the elements by the induction step over an arbitrary index")
    R.assumptions += ["serde_json yields the parsed value and iterates its members once each", "the builders and scalar encoders append what the encoder checks decide"]
    run(F, R, "C16")


def C29(F, R):
    R.rules.append("on every path that imports a number the text converted is the whole text of that number and nothing else, the value encoded is the one converted, underflow gives zero and overflow ends the import with the overflow error")
    R.assumptions += ["a JSON number's text is accepted by Decimal::from_str or refused as an overflow or underflow (decimal-rs)"]
    run(F, R, "C29")
