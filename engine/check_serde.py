"""C23: serialization through serde."""
from terms import *
from spec import *
from api import *
from check_query import ret_case, justified, fails_of
from check_equal import args_in
from check_format import text_of
import buildcut
import interp
import models
from interp import is_cond, Ptr, Sl, VecV, Sym, Adt
from models import variant, payload_tid

SER = "serde_core::ser::Serialize"
DE = "serde_core::de::Deserialize"
VIS = "serde_core::de::Visitor"
HUMAN = c_atom(("human",))
TEXTS = ("visit_str", "visit_string", "visit_borrowed_str")
BYTES = ("visit_bytes", "visit_byte_buf", "visit_borrowed_bytes")


class Undecided(Exception):
    pass


def doc_at(E, st, v):
    """(region, offset, length) of a document."""
    n = 0
    v = unwrap(v)
    while isinstance(v, (Ptr, Sym)) and n < 6:
        v = unwrap(E.expand(v) if isinstance(v, Sym) else E.read_cell(st, v.cell, v.path))
        n += 1
    if isinstance(v, VecV) and not v.writes:
        return v.init, ZERO, v.len
    if isinstance(v, Sl):
        c = models.content(E, st, v)
        if c[0] != "vec":
            return c
    raise Undecided("document %r" % (v,))


class SerdeCut:
    """The calls of the other side of serde, formatting and parsing as events."""
    def __call__(self, E, st, callee, args, dest, target_, span):
        name = callee.get("path") or callee["decl"]
        decl = callee["decl"]
        seg = callee.get("name") or name.rsplit("::", 1)[-1]
        if seg == "is_human_readable" and "serde_core::" in decl:
            return E.finish_call(st, dest, target_, HUMAN)
        if decl.startswith("serde_core::ser::Serializer::") and seg.startswith("serialize_"):
            return self.call(E, st, ("ser", seg[10:]) + self.content(E, st, args[1:]), dest, target_)
        if seg == "serialize" and (decl.startswith(SER) or name.startswith("serde_core::ser::impls::")) and len(args) == 2 and not callee.get("local"):
            t = E.T[args[0].tid]["e"] if isinstance(args[0], Sym) else None
            x = buildcut.target(E, st, args[0])
            kind = "str" if self.is_text(E, st, x) else "other"
            return self.call(E, st, ("ser", kind) + self.content(E, st, args[:1]), dest, target_)
        if decl.startswith("serde_core::de::Deserializer::") and seg.startswith("deserialize_"):
            v = args[1] if len(args) > 1 else None
            t = E.T[v.tid].get("path") if isinstance(v, (Sym, Adt)) and v.tid is not None else None
            return self.call(E, st, ("de", seg[12:], t), dest, target_)
        if seg == "custom" and "serde_core::" in decl:
            return E.finish_call(st, dest, target_, Sym(("custom", args[0]), dest[3]))
        if callee.get("local") and seg == "format_to" and len(args) == 3:
            return self.format(E, st, args, dest, target_)
        if callee.get("local") and st.frames and seg in ("parse", "from_str") and E.tk(dest[3]) == "adt":
            c = text_of(E, st, args[0])
            return self.call(E, st, ("parse", seg, c), dest, target_)
        return None

    def is_text(self, E, st, x):
        if isinstance(x, (Adt, Sym)) and x.tid is not None:
            return E.T[x.tid].get("path") == "alloc::string::String"
        return isinstance(x, Sl) and True

    def content(self, E, st, args):
        if len(args) != 1:
            return (None,)
        v = buildcut.target(E, st, args[0]) if not isinstance(unwrap(args[0]), Sl) else args[0]
        n = 0
        v = unwrap(v)
        while isinstance(v, (Sym, Adt)) and n < 4:
            v = unwrap(E.expand(v)) if isinstance(v, Sym) else v.f[0] if len(v.f) == 1 else None
            n += 1
        if isinstance(v, Sl):
            v2 = models.content(E, st, v)
            return (v2,)
        if isinstance(v, VecV):
            return (("vec", v),)
        return (None,)

    def call(self, E, st, ev, dest, target_):
        n = st.ncall
        st.ncall += 1
        rt = dest[3]
        s = st.copy()
        e = E.mk(("callerr", n), payload_tid(E, rt, "Err"))
        s.emit(("act",) + ev + (n, False))
        s.emit(("fail", e))
        out = E.finish_call(s, dest, target_, variant(E, rt, "Err", [e]))
        st.emit(("act",) + ev + (n, True))
        return out + E.finish_call(st, dest, target_, variant(E, rt, "Ok", [Sym(("result", n), payload_tid(E, rt, "Ok"))]))

    def format(self, E, st, args, dest, target_):
        try:
            doc = doc_at(E, st, args[0])
        except Undecided:
            return None
        mode = args[1]
        c, vec = buildcut.vec_behind(E, st, args[2])
        v = buildcut.target(E, st, args[2])
        if isinstance(v, Adt) and len(v.f) == 1:
            c, vec = (c[0], c[1] + (0,)), v.f[0]
        if not isinstance(vec, VecV) or not is_cond(mode):
            return None
        n = st.ncall
        st.ncall += 1
        rt = dest[3]
        s = st.copy()
        e = E.mk(("formaterr", n), payload_tid(E, rt, "Err"))
        part = A(("formatted", n, False), 0, 1 << 60)
        E.write_cell(s, c[0], c[1], vec.with_(ln=vec.len + part, cap=None, writes=vec.writes + (("rec", n),)))
        s.emit(("act", "format", n, False))
        s.emit(("fail", e))
        out = E.finish_call(s, dest, target_, variant(E, rt, "Err", [e]))
        r = ("sym", ("fmttext", doc, mode))
        ln = A(("fmtlen", n), 0, 1 << 60)
        E.write_cell(st, c[0], c[1], vec.with_(ln=vec.len + ln, cap=None, writes=vec.writes + (("w", vec.len, ln, ("copy", r, ZERO)),)))
        st.emit(("act", "format", n, True))
        pt = payload_tid(E, rt, "Ok")
        return out + E.finish_call(st, dest, target_, variant(E, rt, "Ok", [E.zst(pt)]))


def acts(log):
    return [e for e in log if e[0] == "act"]


def source(err):
    """What a serde error was made from, if anything."""
    n = 0
    while isinstance(err, Adt) and len(err.f) == 1 and n < 3:
        err, n = err.f[0], n + 1
    if isinstance(err, Sym) and isinstance(err.term, tuple) and err.term[0] == "custom":
        return err.term[1]
    return None


class Spec:
    """What the paths of one function have to do."""
    def __init__(self, E, body, args, st0):
        self.E, self.body, self.args = E, body, args

    def error(self, S, o, val):
        E = self.E
        fs = fails_of(o.state.log)
        src = source(val)
        if src is None:
            # an error of the other side is returned as it is
            if val in fs:
                return "error"
            raise Bad("fails with %s, which is not the error of a failed step" % show_val(E, val))
        if src in fs or justified(E, o, src):
            return "error"
        raise Bad("fails with an error of its own making although no step failed")

    def no_failure(self, o):
        if fails_of(o.state.log):
            raise Bad("succeeds although a step failed")

    def human(self, S):
        if S.facts.entails(HUMAN):
            return True
        if S.facts.entails(c_not(HUMAN)):
            return False
        raise Bad("does not depend on whether the format is human readable")

    def pieces(self, facts, c):
        """The pieces a content consists of."""
        if c is None:
            raise Bad("passes something other than the document")
        if c[0] == "vec":
            init, writes, ln = c[1].init, c[1].writes, c[1].len
        elif c[0][0] == "vec":
            init, writes, ln = c[0][1], c[0][2], c[2]
            if not facts.entails(c_eq(c[1])):
                raise Undecided("part of a text")
        else:
            return [c]
        out = []
        end = ZERO
        for w in writes:
            if w[0] != "w" or w[3][0] != "copy" or not facts.entails(c_eq(w[1] - end)):
                raise Bad("passes a text with other content")
            end = w[1] + w[2]
            out.append((w[3][1], w[3][2], w[2]))
        if not facts.entails(c_eq(end - ln)):
            raise Bad("passes a text with other content")
        return out

    def one(self, facts, c):
        ps = [p for p in self.pieces(facts, c) if not facts.entails(c_eq(p[2]))]
        if len(ps) != 1:
            raise Bad("passes a text made of %d pieces" % len(ps))
        return ps[0]



def serialize(sp, S, o):
    E = sp.E
    kind, val = ret_case(E, o)
    if kind == "Err":
        return sp.error(S, o, val)
    sp.no_failure(o)
    ser = [e for e in acts(o.state.log) if e[1] == "ser"]
    if len(ser) != 1:
        raise Bad("passes %d values to the serializer" % len(ser))
    e = ser[0]
    if not (isinstance(val, Sym) and val.term == ("result", e[4])):
        raise Bad("does not return the serializer's result")
    doc = doc_at(E, o.state, sp.args[0])
    if doc[1] != ZERO or args_in(doc[0]) != {0}:
        raise Undecided("document %r" % (doc,))
    r, off, ln = sp.one(S.facts, e[3])
    if sp.human(S):
        if e[2] != "str":
            raise Bad("passes a document's text to the serializer as %s" % e[2])
        if not (r[0] == "sym" and r[1][0] == "fmttext"):
            raise Bad("passes another text than the document's")
        _, d, mode = r[1]
        if not same(S.facts, d, doc):
            raise Bad("formats another document")
        if S.facts.feasible(mode):
            raise Bad("formats the document in pretty form")
        if not S.facts.entails(c_eq(off)):
            raise Bad("passes only a part of the document's text")
        a = single_atom(ln)
        k = ATOM_KEY[a] if a is not None else None
        if not (isinstance(k, tuple) and k[0] == "fmtlen"):
            raise Bad("passes only a part of the document's text")
        return "text"
    if e[2] != "bytes":
        raise Bad("passes a document's bytes to the serializer as %s" % e[2])
    if not same(S.facts, (r, off, ln), doc):
        raise Bad("passes other bytes than the document's")
    return "bytes"


def deserialize(visitors):
    def spec(sp, S, o):
        E = sp.E
        kind, val = ret_case(E, o)
        if kind == "Err":
            return sp.error(S, o, val)
        sp.no_failure(o)
        de = [e for e in acts(o.state.log) if e[1] == "de"]
        if len(de) != 1:
            raise Bad("asks the deserializer for %d values" % len(de))
        e = de[0]
        if not (isinstance(val, Sym) and val.term == ("result", e[4])):
            raise Bad("does not return the visitor's result")
        if e[3] not in visitors:
            raise Bad("uses a visitor that is not analysed")
        if sp.human(S):
            if e[2] not in ("str", "string"):
                raise Bad("asks a human readable format for %s" % e[2])
            return "text"
        if e[2] not in ("bytes", "byte_buf"):
            raise Bad("asks a binary format for %s" % e[2])
        return "bytes"
    return spec


def given(sp, o, i):
    """The text or bytes given as argument i."""
    v = unwrap(sp.args[i])
    n = 0
    while isinstance(v, Sym) and n < 4:
        v, n = unwrap(sp.E.expand(v)), n + 1
    if isinstance(v, VecV):
        return (v.init, ZERO, v.len)
    return models.content(sp.E, o.state, v)


def same(facts, a, b):
    return region_eq(facts, a[0], b[0]) and facts.entails(c_and(c_eq(a[1] - b[1]), c_eq(a[2] - b[2])))


def visit_text(sp, S, o):
    E = sp.E
    kind, val = ret_case(E, o)
    if kind == "Err":
        return sp.error(S, o, val)
    sp.no_failure(o)
    ps = [e for e in acts(o.state.log) if e[1] == "parse"]
    if len(ps) != 1 or not (isinstance(val, Sym) and val.term == ("result", ps[0][4])):
        raise Bad("does not return the parsed text")
    if not same(S.facts, ps[0][3], given(sp, o, 1)):
        raise Bad("parses another text than the one received")
    return "text"


def visit_bytes(sp, S, o):
    E = sp.E
    kind, val = ret_case(E, o)
    if kind == "Err":
        return sp.error(S, o, val)
    sp.no_failure(o)
    v = val
    n = 0
    while isinstance(v, (Adt, Sym)) and n < 4:
        v = v.f[0] if isinstance(v, Adt) else E.expand(v)
        n += 1
    if not isinstance(v, VecV):
        raise Undecided("document %r" % (val,))
    g = given(sp, o, 1)
    c = (v.init, ZERO, v.len) if not v.writes else sp.one(S.facts, ("vec", v))
    if not same(S.facts, c, g) or not S.facts.entails(c_eq(v.len - g[2])):
        raise Bad("the document's bytes are not those received")
    return "bytes"


def public(F):
    ser, de, vis = [], [], []
    for r in F["roots"]:
        if r["key"] not in F["fns"]:
            continue
        t = r.get("trait")
        if t == SER and r["name"] == "serialize":
            ser.append(r)
        elif t == DE and r["name"].startswith("deserialize"):
            de.append(r)
        elif t == VIS and r["name"].startswith("visit_"):
            vis.append(r)
    return ser, de, vis


def judge(F, R, key, spec, nm):
    """Yields (kind, key, text)."""
    E = interp.Engine(F, models, cuts=SerdeCut())
    E.heads = {}
    body = E.fns[key]
    args = [E.mk(("arg", i), body["locals"][i + 1]) for i in range(body["argc"])]
    st = E.start(key, args)
    sp = Spec(E, body, args, st)
    cases = {}
    rows = []
    for o in E.run(st):
        if o.kind in ("unsupported", "panic"):
            rows.append((None, "%s:%s" % (o.kind, o.msg[:60]), "%s in %s" % (o.msg, o.stack[-1] if o.stack else "?")))
            continue
        try:
            for k, fa in explore(E, lambda S: ("k", spec(sp, S, o)), o.state.facts):
                cases[k[1]] = cases.get(k[1], 0) + 1
        except Undecided as x:
            rows.append((None, "undecided:" + str(x)[:60], "undecided: %s" % str(x)[:200]))
        except Bad as b:
            t = str(b)
            p = "C24" if "fails with" in t or "a step failed" in t else "C23"
            rows.append((p, "serde:" + t[:70], t))
    for k in E.unmodelled:
        rows.append((None, "undecided:" + str(k)[:60], "call of %s is not modelled" % k))
    for d in E.obligations:
        if not d[0] and "reservation" not in d[1]:
            rows.append((None, "obligation:%s" % str(d[1])[:60], "unproved: %s" % (d[1],)))
    R.use(E)
    return rows, cases


def run(F, R, prop):
    ser, de, vis = public(F)
    visitors = {F["types"][r["self_ty"]].get("path") for r in vis}
    n = 0
    seen = set()
    for rs, spec in ((ser, serialize), (de, deserialize(visitors)), (vis, None)):
        for r in rs:
            sp = spec or (visit_text if r["name"] in TEXTS else visit_bytes if r["name"] in BYTES else None)
            nm = r["key"].split("#")[0]
            if r["name"] == "deserialize_in_place":
                R.bad("undecided:%s" % nm, "%s is not analysed" % nm)
                continue
            if sp is None:
                R.bad("undecided:%s" % nm, "%s accepts something that is neither text nor bytes" % nm)
                continue
            rows, cases = judge(F, R, r["key"], sp, nm)
            for p, key, text in rows:
                if prop == "C23" or p in (None, prop):
                    R.bad("%s:%s" % (key, nm), "%s: %s" % (nm, text))
            for k, c in cases.items():
                R.good("cases agree", c, {"function": nm, "case": k, "paths": c})
                n += c
                seen.add((r["name"], k))
    for w in (("serialize", "text"), ("serialize", "bytes"), ("deserialize", "text"), ("deserialize", "bytes"), ("visit_str", "text"), ("visit_bytes", "bytes")):
        if w not in seen:
            R.bad("missing:%s:%s" % w, "no path of %s handles %s" % w)
    R.floor("serialization functions", len(ser) + len(de) + len(vis), 4)
    R.floor("cases compared", n, 10)


def C23(F, R):
    R.rules.append("every path of serialize passes the serializer exactly one value, the whole compact text of the document if the format is human readable and otherwise exactly its bytes, and returns its result; deserialize asks for a text or for bytes by the same flag; the visitor parses exactly the text received, or keeps exactly the bytes received; errors of steps end every path with that error")
    R.assumptions += ["formatting and parsing are decided by C14 and C16", "the serializer and deserializer of the format behave as serde specifies"]
    run(F, R, "C23")
