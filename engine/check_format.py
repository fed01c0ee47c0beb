"""C14, C15: formatted text."""
from terms import *
from spec import *
from api import *
from check_query import groups_from, ret_case, justified, fails_of, error_source
import interp
import models
import par
from models import variant, payload_tid
from interp import is_cond


class Writes:
    """What is written, as events: text by its content, numbers by the value."""
    def __call__(self, api, E, st, callee, args, dest, target_, span):
        name = callee.get("path") or callee["decl"]
        seg = name.rsplit("::", 1)[-1]
        decl = callee.get("decl") or name
        if seg == "write_str" and ("fmt::Write" in name or "fmt::Write" in decl or name == "core::fmt::Formatter::<'a>::write_str"):
            return self.act(api, E, st, "write", text_of(E, st, args[1]), dest, target_)
        if seg == "write_char" and ("fmt::Write" in name or "fmt::Write" in decl):
            return self.act(api, E, st, "write", ("char", args[1]), dest, target_)
        if name.startswith("decimal_rs::") and seg == "format_to_json":
            v = args[0]
            while isinstance(v, Ptr):
                v = E.read_cell(st, v.cell, v.path)
            return self.act(api, E, st, "number", v, dest, target_)
        if callee.get("local") and st.frames and callee.get("key") in E.fns:
            c = self.text_function(E, st, callee, args)
            if c is not None:
                return self.act(api, E, st, "text", (callee["key"], c), dest, target_)
        return None

    def text_function(self, E, st, callee, args):
        """The text argument of a function that writes one text."""
        b = E.fns[callee["key"]]
        strs = []
        for i, a in enumerate(args):
            t = E.T[b["locals"][i + 1]]
            if t["k"] == "ref" and E.T[t["e"]]["k"] == "str":
                strs.append(a)
            elif is_lv_tid(E, b["locals"][i + 1]):
                return None
        if len(strs) != 1 or not has_writer(E, b):
            return None
        c = text_of(E, st, strs[0])
        return None if isinstance(c[0], tuple) and c[0][0] == "const" else c

    def act(self, api, E, st, seg, what, dest, target_):
        n = api.fresh(st)
        rt = dest[3]
        s = st.copy()
        e = E.mk(("acterr", n), payload_tid(E, rt, "Err"))
        s.emit(("act", seg, what, n, False))
        s.emit(("fail", e))
        out = E.finish_call(s, dest, target_, variant(E, rt, "Err", [e]))
        st.emit(("act", seg, what, n, True))
        pt = payload_tid(E, rt, "Ok")
        return out + E.finish_call(st, dest, target_, variant(E, rt, "Ok", [E.zst(pt)]))


def text_of(E, st, v):
    v = unwrap(v)
    n = 0
    while isinstance(v, Ptr) and n < 5:
        v = unwrap(E.read_cell(st, v.cell, v.path))
        n += 1
    if isinstance(v, Sl):
        return (v.region, v.off, v.len)
    if isinstance(v, Sym):
        t = v.term
        return (("sym", t), ZERO, A(("len", t), 0, 1 << 62))
    raise interp.Unsupported("text %r" % (v,))


def is_lv_tid(E, tid):
    t = E.T[tid]
    n = 0
    while t["k"] in ("ref", "ptr") and n < 3:
        t = E.T[t["e"]]
        n += 1
    return t.get("path") == "yason::yason::LazyValue"


def has_writer(E, b):
    for i in range(b["argc"]):
        t = E.T[b["locals"][i + 1]]
        if t["k"] == "ref" and t.get("mut"):
            x = E.T[t["e"]]
            if x["k"] == "param" or x.get("path") in ("alloc::string::String", "core::fmt::Formatter"):
                return True
    return False


# ------------------------------------------------------------------ recursion
class FmtApi(Api):
    """Writing a value is an event; what the formatter keeps across it is
    given by `volatile`, the leaves that writing a value may change."""
    def __init__(self, F, rec, volatile=()):
        Api.__init__(self, F, rec, extra=Writes())
        self.volatile = volatile
        self.seen = []          # (formatter type, snapshot, facts) at each call

    def recursion(self, E, st, callee, args, dest, target):
        n = self.fresh(st)
        nd = fm = None
        for a in args:
            v = a
            d = 0
            while isinstance(v, Ptr) and d < 3:
                v = E.read_cell(st, v.cell, v.path)
                d += 1
            if is_lv(E, v):
                nd = node(E, st, v)
            elif isinstance(a, Ptr) and tid_of(E, v) is not None and fm is None:
                fm = a
        if nd is None:
            raise interp.Unsupported("a recursive call without a value")
        if fm is not None:
            x = E.read_cell(st, fm.cell, fm.path)
            x = E.expand(x) if isinstance(x, Sym) and E.T[x.tid].get("adt") == "struct" else x
            self.seen.append((tid_of(E, x), x, st.facts))
            new = havoc_leaves(E, x, self.volatile, n)
            E.write_cell(st, fm.cell, fm.path, new)
        key = callee["key"]
        out = []
        rt = dest[3]
        s = st.copy()
        e = E.mk(("recerr", n), payload_tid(E, rt, "Err"))
        s.emit(("rec", key, nd, None, n, tid_of(E, x) if fm is not None else None, False))
        s.emit(("fail", e))
        out += E.finish_call(s, dest, target, variant(E, rt, "Err", [e]))
        st.emit(("rec", key, nd, None, n, tid_of(E, x) if fm is not None else None, True))
        return out + E.finish_call(st, dest, target, variant(E, rt, "Ok", [E.zst(payload_tid(E, rt, "Ok"))]))


def tid_of(E, v):
    if isinstance(v, (Adt, Sym)) and v.tid is not None and E.T[v.tid]["k"] == "adt" and E.T[v.tid].get("local") and E.T[v.tid].get("adt") == "struct":
        return v.tid
    return None


def leaves(E, v, path=()):
    """The numbers and truth values of a structure, by position."""
    if isinstance(v, Sym) and tid_of(E, v) is not None and len(path) < 5:
        v = E.expand(v)
    if isinstance(v, Adt) and E.T[v.tid].get("adt") == "struct":
        out = []
        for i, x in enumerate(v.f):
            out += leaves(E, x, path + (i,))
        return out
    return [(path, v)]


def with_leaf(E, v, path, new):
    if not path:
        return new
    if isinstance(v, Sym):
        v = E.expand(v)
    f = list(v.f)
    f[path[0]] = with_leaf(E, f[path[0]], path[1:], new)
    return Adt(v.tid, v.var, f)


def havoc_leaves(E, v, which, n):
    for path, x in leaves(E, v):
        if path in which:
            v = with_leaf(E, v, path, like(E, x, ("fmt", n, path)))
    return v


def like(E, x, term):
    if isinstance(x, Lin):
        return A(term, 0, 1 << 40)
    if is_cond(x):
        return c_atom(term)
    raise interp.Unsupported("the formatter keeps a value of another kind between values")


# ------------------------------------------------------------------ text
WS = b" \t\n\r"


def const_bytes(E, c):
    """The constant bytes a text is part of."""
    r = c[0]
    if isinstance(r, tuple) and r[0] == "const":
        return r[1]
    if isinstance(r, tuple) and r[0] == "place" and r[1][0] == "konst" and r[2] == ():
        v = E.konst[r[1][1]]
        if isinstance(v, interp.Arr) and all(isinstance(x, Lin) and x.is_const() for x in v.e):
            return bytes(x.c for x in v.e)
    return None


class Toks:
    """The tokens of a sequence of events."""
    def __init__(self, E, evs, templates, ws):
        self.E, self.evs, self.templates, self.ws = E, list(evs), templates, ws
        self.buf = b""

    def peek(self):
        while True:
            if self.buf:
                return ("c", self.buf[0])
            if not self.evs:
                return None
            e = self.evs[0]
            if e[0] == "fail":
                return ("fail",)
            if e[0] == "loop":
                if self.blank_loop(e, True):
                    self.evs.pop(0)
                    continue
                if self.ws and self.blank_loop(e, False):
                    return ("blank",)
                return ("loop", e)
            if e[0] == "rec":
                return ("rec", e)
            if e[1] == "write":
                c = e[2]
                if c[0] == "char":
                    x = c[1]
                    if isinstance(x, Lin) and x.is_const() and x.c < 128:
                        self.evs.pop(0)
                        self.buf = bytes([x.c])
                        continue
                    return ("text", None)
                b = const_bytes(self.E, c)
                if b is not None and c[1].is_const() and c[2].is_const():
                    self.evs.pop(0)
                    self.buf = b[c[1].c:c[1].c + c[2].c]
                    continue
                if b is not None and all(x in WS for x in b):
                    return ("blank",)
                return ("text", c)
            if e[1] == "number":
                return ("num", e[2])
            if e[1] == "text":
                t = self.templates(e[2][0])
                return ("quoted" if t == "quoted" else "esc", e[2][1])
            return ("other", e)

    def blank_loop(self, e, idle):
        """A loop that writes nothing, or nothing but white space."""
        for s, lg in self.E.loops[e[2]].backs:
            for x in events(lg):
                if x[0] == "loop" and self.blank_loop(x, idle):
                    continue
                if not idle and x[0] == "act" and x[1] == "write" and x[2][0] != "char":
                    b = const_bytes(self.E, x[2])
                    if b is not None and all(y in WS for y in b):
                        continue
                return False
        return True

    def skip(self):
        if not self.ws:
            return
        while True:
            t = self.peek()
            if t == ("blank",) or t is not None and t[0] == "c" and t[1] in WS:
                self.pop()
            else:
                return

    def pop(self):
        if self.buf:
            self.buf = self.buf[1:]
        else:
            self.evs.pop(0)

    def char(self, ch, what):
        self.skip()
        t = self.peek()
        if t is None or t[0] != "c" or t[1] != ord(ch):
            raise Bad("writes %s where %s is due" % (show_tok(t), what or repr(ch)))
        self.pop()

    def word(self, w):
        self.skip()
        for ch in w:
            t = self.peek()
            if t is None or t[0] != "c" or t[1] != ord(ch):
                raise Bad("writes %s where %r is due" % (show_tok(t), w))
            self.pop()

    def string(self, S, same, what):
        """A quoted text; same(content) tells whether it is the right one."""
        self.skip()
        t = self.peek()
        if t is not None and t[0] == "quoted":
            self.pop()
        elif t is not None and t[0] == "c" and t[1] == 34:
            self.pop()
            t = self.peek()
            if t is None or t[0] != "esc":
                raise Bad("writes %s where the escaped %s is due" % (show_tok(t), what))
            self.pop()
            q = self.peek()
            if q is None or q[0] != "c" or q[1] != 34:
                raise Bad("writes %s where the closing quote of %s is due" % (show_tok(q), what))
            self.pop()
        else:
            raise Bad("writes %s where %s is due" % (show_tok(t), what))
        if not same(t[1]):
            raise Bad("writes another text than %s" % what)

    def end(self):
        self.skip()
        t = self.peek()
        if t is not None:
            raise Bad("writes %s where the text should end" % show_tok(t))


def show_tok(t):
    if t is None:
        return "nothing more"
    if t[0] == "c":
        return "%r" % chr(t[1])
    if t[0] == "rec":
        return show_node(t[1][2])
    return {"loop": "a sequence", "blank": "white space", "num": "a number", "quoted": "a string", "esc": "an unquoted string",
            "text": "an unescaped text", "fail": "nothing (a failed step)"}.get(t[0], t[0])


class Grammar:
    """The text one value is written as."""
    def __init__(self, E):
        self.E = E

    def same_node(self, S, a, b):
        return node_eq(S.facts, a, b)

    def value(self, S, T, nd):
        T.skip()
        t = T.peek()
        if t is None or t[0] != "rec":
            raise Bad("writes %s where %s is due" % (show_tok(t), show_node(nd)))
        if not node_eq(S.facts, nd, t[1][2]):
            raise Bad("writes %s where %s is due" % (show_node(t[1][2]), show_node(nd)))
        T.pop()

    def members(self, S, T, opening, closing, n, item):
        """item(S, T, i) matches element i, 0 <= i < n."""
        T.char(opening, None)
        k = ZERO
        while True:
            T.skip()
            t = T.peek()
            if t is not None and t[0] == "loop":
                k = self.loop(S, T, t[1], k, n, item)
                continue
            if t is not None and t[0] == "c" and t[1] == ord(closing):
                if not S.facts.entails(c_ge(k - n)):
                    raise Bad("closes with %s after %r of %r elements" % (closing, k, n))
                T.pop()
                return
            if not S.facts.entails(c_ge(n - 1 - k)):
                raise Bad("writes %s where %r is due" % (show_tok(t), closing))
            self.element(S, T, k, item)
            k = k + 1

    def element(self, S, T, k, item):
        if not S.br(c_eq(k)):
            T.char(",", "a comma")
        item(S, T, k)

    def loop(self, S, T, e, k, n, item):
        E = self.E
        L = E.loops[e[2]]
        T.pop()
        err = None
        splits = tuple(S.splits)
        for f in loop_steps(E, L, k):
            try:
                for s, lg in L.backs:
                    for r, fa in explore(E, lambda S2: self.iteration(S2, f, k, n, item, lg, T), s.facts, splits=splits):
                        pass
                return f
            except Bad as b:
                err = b
        raise err or Bad("a sequence of elements has no counter")

    def iteration(self, S, f, lo, n, item, lg, T):
        if not S.facts.entails(c_and(c_ge(f - lo), c_ge(n - 1 - f))):
            raise Bad("an iteration is not known to stay inside the container")
        T2 = Toks(self.E, events(lg), T.templates, T.ws)
        self.element(S, T2, f, item)
        T2.end()
        return ("done",)


# ------------------------------------------------------------------ values
def val_text(nd):
    term = ("val", "string", nd)
    return (("sym", term), ZERO, A(("len", term), 0, 1 << 62))


def same_text(facts, a, b):
    return region_eq(facts, a[0], b[0]) and lin_same(facts, a[1], b[1]) and lin_same(facts, a[2], b[2])


def number_val(v, term):
    while isinstance(v, Adt) and len(v.f) == 1:
        v = v.f[0]
    if not isinstance(v, Sym):
        return False
    t = v.term
    return t == term or isinstance(t, tuple) and t[0] == "f" and t[1] == term


def head_case(E, S, o, nd, ts, templates, ws):
    k, val = ret_case(E, o)
    if k == "Err":
        if not justified(E, o, val):
            raise Bad("fails with %s, which is not the error of a failed step" % show_val(E, val))
        return "error"
    if fails_of(o.state.log):
        raise Bad("succeeds although a step failed")
    T = Toks(E, events(o.state.log), templates, ws)
    G = Grammar(E)
    for t in range(1, 7):
        if t == 6 or S.br(c_eq(ts - t)):
            break
    if t == 6:
        T.word("null")
    elif t == 5:
        T.word("true" if S.br(E.mk(("val", "bool", nd), E.bool_tid)) else "false")
    elif t == 4:
        T.skip()
        x = T.peek()
        if x is None or x[0] != "num" or not number_val(x[1], ("val", "number", nd)):
            raise Bad("writes %s where the number is due" % show_tok(x))
        T.pop()
    elif t == 3:
        T.string(S, lambda c: same_text(S.facts, c, val_text(nd)), "the string")
    else:
        D = Doc(doc_slice(nd))
        n = A(("le", D.region, D.off + 5, 2, False), 0, 65535)
        if t == 2:
            G.members(S, T, "[", "]", n, lambda S2, T2, i: G.value(S2, T2, mk_node(D.region, i.scale(5) + 7, True)))
        else:
            def member(S2, T2, i):
                off = A(("le", D.region, i.scale(4) + 7, 4, False), 0, (1 << 32) - 1)
                kl = A(("le", D.region, off + 5, 2, False), 0, 65535)
                T2.string(S2, lambda c: same_text(S2.facts, c, (D.region, off + 7, kl)), "the key of the member")
                T2.char(":", "a colon")
                G.value(S2, T2, mk_node(D.region, off + 7 + kl, False))
            G.members(S, T, "{", "}", n, member)
    T.end()
    return TYPES6[t - 1]


def engine(F, api, k=0):
    E = interp.Engine(F, models, cuts=api, max_states=400000)
    E.unroll_k = k
    E.heads = {}
    E.bool_tid = next(i for i, t in enumerate(F["types"]) if t["k"] == "bool")
    return E


def judge(E, R, api, outs, case, prop, panic=None):
    n = {}
    for o in outs:
        if o.kind == "unsupported":
            yield prop, "undecided:" + o.msg[:60], "%s in %s" % (o.msg, o.stack[-1] if o.stack else "?"), 0
            continue
        if o.kind == "panic":
            if panic is None or not panic(o):
                yield prop, "panic:" + o.msg[:60], "may panic (%s, %s)" % (o.msg, o.span.split(":")[0]), 0
            continue
        try:
            for k, fa in explore(E, lambda S: ("k", case(S, o)), o.state.facts):
                n[k[1]] = n.get(k[1], 0) + 1
        except Bad as b:
            t = str(b)
            p = "C24" if "fails with" in t or "a step failed" in t else prop
            yield p, "format:" + t[:70], t, 0
            if p != prop and "although" in t:
                yield prop, "format:" + t[:70], t, 0
    for ok_, t in api.unsafe_calls:
        if not ok_:
            yield prop, "unsafe:" + t[:60], t, 0
    for k in E.unmodelled:
        yield prop, "undecided:" + str(k)[:60], "call of %s is not modelled" % k, 0
    R.use(E)
    for k, c in n.items():
        yield prop, None, k, c


def head_id(key):
    import re
    return re.sub(r"::<[^<>]*(<'_>)?, (true|false)>$", r"::<\2>", key.split("#")[0])


def text_id(key):
    import re
    return re.sub(r"::<[^<>]*(<'_>)?>$", "", key.split("#")[0])


def run_head(F, key, group, init, volatile, konst):
    api = FmtApi(F, group, volatile)
    E = engine(F, api)
    for n, v in konst.items():
        E.konst[n] = v
        E.konst_n[v] = n
    body = E.fns[key]
    args = [E.mk(("arg", i), body["locals"][i + 1]) for i in range(body["argc"])]
    st = E.start(key, args)
    lv = fm = None
    for i, a in enumerate(args):
        v = a
        d = 0
        while isinstance(v, Ptr) and d < 3:
            v = E.read_cell(st, v.cell, v.path)
            d += 1
        if is_lv(E, v):
            lv = a
        elif isinstance(a, Ptr) and tid_of(E, v) is not None and fm is None:
            fm = a
    if lv is None or fm is None:
        raise interp.Unsupported("the value or the formatter is not recognised")
    E.write_cell(st, fm.cell, fm.path, init)
    y, ty, pos, ina = lv_parts(E, st, lv)
    nd = mk_node(y.region, y.off + pos, ina)
    outs = E.run(st)
    return E, api, fm, nd, dtype_of(E, ty), outs


def generalise(E, a, b, facts):
    """The formatter states a and b as one, for all values of what differs."""
    out = a
    for (p, x), (q, y) in zip(leaves(E, a), leaves(E, b)):
        if p != q:
            raise interp.Unsupported("the formatter's parts differ")
        if x == y:
            continue
        if isinstance(x, Lin) and is_free(x, p):
            if not facts.entails(c_ge(y)):
                raise interp.Unsupported("the formatter's counters may become negative")
            continue
        if is_cond(x) and x == c_atom(("fmtstate", p)):
            continue
        out = with_leaf(E, out, p, like(E, x, ("fmtstate", p)))
    return out


def is_free(x, p):
    return x == A(("fmtstate", p), 0, 1 << 40)


def stable_heads(F, keys, group, init, konst):
    """The states in which a formatter writes values, by induction over the
    nesting; then the paths of one such step of each function in keys (a dict
    by head_id, extended by what these call)."""
    volatile = frozenset()
    runs = {}
    for rnd in range(10):
        new, vol, runs, todo = init, set(volatile), {}, sorted(keys)
        while todo:
            h = todo.pop()
            E, api, fm, nd, ts, outs = runs[h] = run_head(F, keys[h], group, init, volatile, konst)
            for tid, x, facts in api.seen:
                new = generalise(E, new, x, facts)
            for o in outs:
                for e in all_events(E, o.state.log):
                    if e[0] == "rec" and head_id(e[1]) not in keys:
                        keys[head_id(e[1])] = e[1]
                        todo.append(head_id(e[1]))
                if o.kind == "ret" and isinstance(o.value, Adt) and vname(E, o.value) == "Ok":
                    x = E.read_cell(o.state, fm.cell, fm.path)
                    for (p, a), (q, b) in zip(leaves(E, init), leaves(E, x)):
                        same = a == b or isinstance(a, Lin) and isinstance(b, Lin) and o.state.facts.entails(c_eq(a - b))
                        if not same:
                            vol.add(p)
        if new == init and vol == volatile:
            return runs
        init, volatile = new, frozenset(vol)
    raise interp.Unsupported("the formatter's state does not stabilise")


def heads_job(F, keys, group, init, pretty, konst):
    """All functions of one formatter that write a value."""
    st = par.Stats()
    kinds = Kinds(F)
    rows, texts = [], set()
    keys = dict(keys)
    runs = stable_heads(F, keys, group, init, konst)
    for h in sorted(runs):
        E, api, fm, nd, ts, outs = runs[h]
        for prop, key, text, n in judge(E, st, api, outs, lambda S, o: head_case(E, S, o, nd, ts, kinds, pretty), "C14"):
            rows.append((h, prop, key, text, n))
        texts |= texts_of(E, outs)
    return rows, sorted(texts), len(runs), st.plain()


def outer_job(F, key):
    st = par.Stats()
    rows, starts, texts, group, konst = run_outer(F, st, key, Kinds(F))
    return [(key.split("#")[0],) + r for r in rows], starts, texts, group, st.plain(), konst


def text_job(F, key):
    st = par.Stats()
    known = {}
    kind, rows = check_text(F, st, key, known)
    return rows, st.plain()


class Kinds:
    """What a function that writes one text writes: with quotes or without."""
    def __init__(self, F):
        self.F, self.known = F, {}

    def __call__(self, key):
        k = text_id(key)
        if k not in self.known:
            self.known[k] = "quoted"
            try:
                self.known[k] = check_text(self.F, par.Stats(), key, {})[0]
            except Exception:
                pass
        return self.known[k]


def texts_of(E, outs):
    return {e[2][0] for o in outs for e in all_events(E, o.state.log) if e[0] == "act" and e[1] == "text"}


def analyse(F, R):
    """Rows (function, property, key, text, paths) of all functions that write
    values, the functions that write texts, and what was covered."""
    roots = sorted(outer_roots(F))
    rows, texts, starts, group, konst = [], {}, {}, set(), {}
    jobs = [(outer_job, (F, k)) for k in roots]
    for (fn, (_, k)), (st, r) in zip(jobs, par.run_jobs(jobs)):
        if st == "error":
            rows.append((k.split("#")[0], "C14", "undecided", r, 0))
            continue
        rows += r[0]
        for (h, pretty), x in r[1].items():
            starts.setdefault((repr(formatter_of(None, F, h)), pretty), []).append((h, x))
        for t in r[2]:
            texts.setdefault(text_id(t), t)
        group |= set(r[3])
        R.use(par.Stats.of(r[4]))
        konst.update(r[5])
    jobs = []
    for (fid, pretty), hs in sorted(starts.items(), key=lambda x: x[0]):
        init = None
        for h, x in hs:
            if x is None:
                continue
            if init is not None and x != init:
                E = engine(F, FmtApi(F, ()))
                init = generalise(E, init, x, Facts())
            elif init is None:
                init = x
        if init is None:
            rows.append((hs[0][0].split("#")[0], "C14", "undecided", "the formatter's initial state is not known", 0))
            continue
        jobs.append((heads_job, (F, {head_id(h): h for h, x in hs}, group, init, pretty, konst)))
    nheads = 0
    for (fn, a), (st, r) in zip(jobs, par.run_jobs(jobs)):
        if st == "error":
            rows.append((sorted(a[1])[0], "C14", "undecided", r, 0))
            continue
        rows += r[0]
        for t in r[1]:
            texts.setdefault(text_id(t), t)
        nheads += r[2]
        R.use(par.Stats.of(r[3]))
    return rows, texts, len(roots), len(starts), nheads


def C14(F, R):
    R.rules.append("the output of every path of every formatting function is matched, token by token, with the text of the value by the JSON grammar: the elements in order, one comma between two, each key before its value, no white space in compact form; sequences by the induction step over an arbitrary index; the formatter's own state by a fixed point over the nesting")
    R.assumptions += ["the read interface (LazyValue accessors, array and object iteration) behaves as the reader checks decide it",
                      "decimal-rs writes a number's JSON text (Decimal::format_to_json)"]
    rows, texts, nroots, nformats, nheads = analyse(F, R)
    n = report(R, rows, "C14")
    R.floor("public formatting functions", nroots, 3)
    R.floor("formatters", nformats, 2)
    R.floor("functions that write a value", nheads, 4)
    R.floor("cases compared", n, 60)


def report(R, rows, prop):
    n = 0
    for h, p, key, text, c in rows:
        if p != prop:
            continue
        if key is None:
            R.good("cases agree", c, {"function": h, "case": text, "paths": c})
            n += c
        else:
            R.bad("%s:%s" % (key, h), "%s: %s" % (h, text))
    return n


def C15(F, R):
    R.rules.append("the loop over the bytes of a text is decided by its induction step: an arbitrary byte, with everything before it written or pending; every byte value is either copied unescaped, which JSON must allow, or written as one of its JSON escapes; nothing is written twice or lost")
    R.assumptions += ["the text is UTF-8 (C01, C05), so segments split at ASCII bytes are"]
    rows, texts, nroots, nformats, nheads = analyse(F, R)
    for h, p, key, text, c in rows:
        if p == "C14" and key == "undecided":
            R.bad("undecided:%s" % h, "%s: %s" % (h, text))
    jobs = [(text_job, (F, k)) for t, k in sorted(texts.items())]
    n = 0
    for (fn, (_, k)), (st, r) in zip(jobs, par.run_jobs(jobs)):
        if st == "error":
            R.bad("undecided:%s" % text_id(k), "%s: %s" % (text_id(k), r))
            continue
        n += report(R, [(text_id(k),) + x for x in r[0]], "C15")
        R.use(par.Stats.of(r[1]))
    R.floor("functions that write a text", len(texts), 2)
    R.floor("byte values decided", n, 256)


# ------------------------------------------------------------------ escaping
SHORT = {8: "b", 9: "t", 10: "n", 12: "f", 13: "r", 34: '"', 92: "\\", 47: "/"}


def escapes(v):
    out = {b"\\u%04x" % v, b"\\u%04X" % v}
    if v in SHORT:
        out.add(b"\\" + SHORT[v].encode())
    return out


def must_escape(v):
    return v < 32 or v in (34, 92)


def may_escape(v):
    return must_escape(v) or v == 47


class Escaper:
    """Matches the writes of a path against the escaped form of a text."""
    def __init__(self, E, c, templates):
        self.E, self.c, self.templates = E, c, templates
        self.steps = 0

    def byte_values(self, facts, p):
        """The values byte p can have on this path."""
        from readers import fact_atoms
        cand = None
        for a in sorted(fact_atoms(facts)):
            k = ATOM_KEY[a]
            if isinstance(k, tuple) and k[0] == "byte" and k[1] == self.c[0] and facts.entails(c_eq(k[2] - p)):
                vs = [v for v in range(256) if facts.assume(c_eq(lin_atom(a) - v)) is not None]
                if cand is None or len(vs) < len(cand):
                    cand = vs
        return cand if cand is not None else list(range(256))

    def clean(self, facts, p):
        return not any(must_escape(v) for v in self.byte_values(facts, p))

    def run(self, facts, evs, p, q):
        """Everything before p is written, the bytes from p up to q need no
        escape; the same for the position afterwards."""
        evs = list(evs)
        while evs:
            e = evs.pop(0)
            if e[0] == "fail":
                raise Bad("writes nothing (a failed step)")
            if e[0] == "loop":
                p, q = self.loop(facts, e, p, q)
                continue
            if e[0] != "act":
                raise Bad("continues with another value")
            if e[1] == "text":
                if self.templates(e[2][0]) == "esc" and same_text(facts, e[2][1], (self.c[0], p, self.c[1] + self.c[2] - p)):
                    p = q = self.c[1] + self.c[2]
                    continue
                raise Bad("writes another text")
            if e[1] != "write":
                raise Bad("writes a number")
            c = e[2]
            if c[0] == "char":
                x = c[1]
                if isinstance(x, Lin) and x.is_const() and x.c < 128:
                    b = bytes([x.c])
                else:
                    raise Bad("writes a character that cannot be traced")
            else:
                b = const_bytes(self.E, c)
                if b is not None and c[1].is_const() and c[2].is_const():
                    b = b[c[1].c:c[1].c + c[2].c]
                else:
                    b = None
            if b is not None:
                # the escape of byte p
                if b == b"":
                    continue
                if not facts.entails(c_ge(self.c[1] + self.c[2] - 1 - p)):
                    raise Bad("writes %r behind the end of the text" % b)
                vs = self.byte_values(facts, p)
                bad = [v for v in vs if not (may_escape(v) and b in escapes(v))]
                if bad:
                    raise Bad("writes %r for the byte %#04x" % (b.decode("latin-1"), bad[0]))
                self.steps += len(vs)
                p = p + 1
                q = p
                continue
            if c[0] != self.c[0]:
                raise Bad("writes a text from elsewhere")
            if not facts.entails(c_eq(c[1] - p)):
                raise Bad("copies the text from %r on where %r is due" % (c[1], p))
            end = c[1] + c[2]
            if not facts.entails(c_ge(q - end)):
                if self.clean(facts, q) and facts.entails(c_ge(q + 1 - end)):
                    q = q + 1
                else:
                    raise Bad("copies bytes that have not been found to need no escape")
            p = end
        return p, q

    def loop(self, facts, e, p, q):
        E = self.E
        L = E.loops[e[2]]
        err = None
        starts = [(None, p)] + [(i, cur) for i, (loc, init, cur, nexts) in enumerate(L.carried) if isinstance(cur, Lin) and (init - p == ZERO or facts.entails(c_eq(init - p)))]
        for f in loop_steps(E, L, q):
            for i, cur in starts:
                try:
                    for j, (s, lg) in enumerate(L.backs):
                        F = s.facts
                        np, nq = self.run(F, events(lg), cur, f)
                        want = p if i is None else L.carried[i][3][j]
                        if not F.entails(c_eq(np - want)):
                            raise Bad("an iteration writes up to %r but continues at %r" % (np, want))
                        if not F.entails(c_ge(self.c[1] + self.c[2] - 1 - f)) or not F.entails(c_ge(f - self.c[1])):
                            raise Bad("an iteration is not known to stay inside the text")
                        if not F.entails(c_ge(nq - f - 1)):
                            vs = [v for v in self.byte_values(F, f) if must_escape(v)]
                            if vs:
                                raise Bad("leaves the byte %#04x unescaped" % vs[0])
                            self.steps += 1
                            nq = f + 1
                        if not F.entails(c_ge(nq - np)):
                            raise Bad("copies bytes before they were examined")
                    return cur, f
                except Bad as b:
                    err = b
        raise err or Bad("the bytes of the text are not visited one after the other")


def text_case(E, S, o, c, templates, box):
    v = o.value
    k, val = ret_case(E, o)
    if k == "Err":
        if not fails_of(o.state.log):
            raise Bad("fails with %s, which is not the error of a failed step" % show_val(E, val))
        return "error"
    if fails_of(o.state.log):
        raise Bad("succeeds although a step failed")
    evs = events(o.state.log)
    quoted = bool(evs) and literal(E, evs[0]) == b'"'
    if quoted:
        if len(evs) < 2 or literal(E, evs[-1]) != b'"':
            raise Bad("the closing quote is missing")
        evs = evs[1:-1]
    box.setdefault("kinds", set()).add("quoted" if quoted else "esc")
    X = Escaper(E, c, templates)
    p, q = X.run(o.state.facts, evs, c[1], c[1])
    if not o.state.facts.entails(c_eq(c[1] + c[2] - p)):
        raise Bad("ends after %r of %r bytes of the text" % (p, c[2]))
    box["steps"] = box.get("steps", 0) + X.steps
    return "text"


def literal(E, e):
    if e[0] != "act" or e[1] != "write":
        return None
    c = e[2]
    if c[0] == "char":
        return bytes([c[1].c]) if isinstance(c[1], Lin) and c[1].is_const() and c[1].c < 128 else None
    b = const_bytes(E, c)
    if b is None or not c[1].is_const() or not c[2].is_const():
        return None
    return b[c[1].c:c[1].c + c[2].c]


def check_text(F, R, key, known):
    """What a function that writes one text writes."""
    api = FmtApi(F, ())
    E = engine(F, api)
    body = E.fns[key]
    args = [E.mk(("arg", i), body["locals"][i + 1]) for i in range(body["argc"])]
    st = E.start(key, args)
    c = None
    for i, a in enumerate(args):
        t = E.T[body["locals"][i + 1]]
        if t["k"] == "ref" and E.T[t["e"]]["k"] == "str":
            c = text_of(E, st, a)
    outs = E.run(st)
    inner = sorted({e[2][0] for o in outs for e in o.state.log if e[0] == "act" and e[1] == "text"})
    box = {}
    rows = []
    for k in inner:
        if k not in known:
            known[k] = None
            kind, r = check_text(F, R, k, known)
            known[k] = kind
            rows += r
    rows += [(p, k_ and k_ + ":" + text_id(key), t and "%s: %s" % (text_id(key), t), n) for p, k_, t, n in judge(E, R, api, outs, lambda S, o: text_case(E, S, o, c, lambda k: known.get(k), box), "C15")]
    kinds = box.get("kinds", set())
    if len(kinds) > 1:
        rows.append(("C15", "kinds:" + text_id(key), "%s: writes the quotes on some paths only" % text_id(key), 0))
    rows.append(("C15", None, "bytes", box.get("steps", 0)))
    kind = "esc" if kinds == {"esc"} else "quoted"
    if not kinds:
        rows.append(("C15", "floor:" + text_id(key), "%s: no path is known to write the text" % text_id(key), 0))
    return kind, rows


# ------------------------------------------------------------------ the public functions
FORMAT_TO = "yason::yason::Yason::format_to"
QUERIED = "yason::path::QueriedValue::<'a, 'b>::format_to"


def outer_roots(F):
    out = []
    for r in F["roots"]:
        k = r["key"]
        if k not in F["fns"]:
            continue
        p = F["fns"][k]["path"]
        if p in (FORMAT_TO, QUERIED) or r.get("trait") == "core::fmt::Display" and r["name"] == "fmt" and F["types"][r["self_ty"]].get("path") == "yason::format::LazyFormat":
            out.append(k)
    return out


def run_outer(F, R, key, kinds):
    """One public formatting function. Rows, and the formatters it starts."""
    group = groups_from(F, key)
    api = FmtApi(F, group)
    E = engine(F, api, 1)
    body = E.fns[key]
    args = [E.mk(("arg", i), body["locals"][i + 1]) for i in range(body["argc"])]
    st = E.start(key, args)
    pretty = None
    doc = None
    me = args[0]
    v = me
    while isinstance(v, Ptr):
        v = E.read_cell(st, v.cell, v.path)
    if isinstance(v, Sym) and E.T[v.tid].get("adt") == "struct":
        v = E.expand(v)
    if isinstance(v, Adt):
        for x in v.f:
            if is_cond(x):
                pretty = x
            elif isinstance(unwrap(x), Sl):
                doc = unwrap(x)
    if isinstance(unwrap(v), Sl) and doc is None:
        doc = unwrap(v)
    for a in args[1:]:
        if is_cond(a):
            pretty = a
    if pretty is None:
        raise interp.Unsupported("no argument asks for the mode")
    outs = E.run(st)
    G = Grammar(E)
    starts = {}

    def case(S, o):
        x = o.value
        k, val = ret_case(E, o)
        if k == "Err":
            if not fails_of(o.state.log) and not justified(E, o, val):
                raise Bad("fails with %s, which is not the error of a failed step" % show_val(E, val))
            return "error"
        if fails_of(o.state.log):
            raise Bad("succeeds although a step failed")
        ws = S.br(pretty)
        T = Toks(E, events(o.state.log), lambda k: kinds(k), ws)
        if doc is not None:
            G.value(S, T, mk_node(doc.region, doc.off, None))
            T.end()
            return "document"
        n = case_of(S, E, v)
        if n == "None":
            T.end()
            return n
        if n == "Yason":
            y = unwrap(part_of(E, v, "Yason", 0))
            G.value(S, T, mk_node(y.region, y.off, None))
            T.end()
            return n
        if n == "Value":
            value_text(S, T, part_of(E, v, "Value", 0))
            T.end()
            return n
        l = part_of(E, v, n, 0)
        while isinstance(l, Ptr):
            l = E.read_cell(o.state, l.cell, l.path)
        l = unwrap(E.expand(l) if isinstance(l, Sym) else l)
        if not isinstance(l, VecV):
            raise interp.Unsupported("the list of values %r" % (l,))
        if S.br(c_eq(l.len)):
            T.skip()
            if T.peek() is not None:
                T.char("[", None)
                T.char("]", None)
            T.end()
            return n
        G.members(S, T, "[", "]", l.len, lambda S2, T2, i: value_text(S2, T2, E.mk(("elem", l.init, i), l.etid)))
        T.end()
        return n

    def value_text(S, T, x):
        n = case_of(S, E, x)
        if n == "Null":
            T.word("null")
            return
        y = part_of(E, x, n, 0)
        if n == "Bool":
            T.word("true" if S.br(y) else "false")
        elif n == "Number":
            T.skip()
            t = T.peek()
            if t is None or t[0] != "num" or not (t[1] == y or isinstance(y, Adt) and t[1] == unwrap(y) or isinstance(y, Sym) and number_val(t[1], y.term)):
                raise Bad("writes %s where the number is due" % show_tok(t))
            T.pop()
        elif n == "String":
            c = text_of(E, None, y)
            T.string(S, lambda d: same_text(S.facts, c, d), "the string")
        else:
            d = unwrap(y if not isinstance(y, Sym) else E.expand(y))
            G.value(S, T, mk_node(d.region, d.off, None))

    rows = list(judge(E, R, api, outs, case, "C14"))
    # the formatters at the start, with the mode
    for o in outs:
        for e in all_events(E, o.state.log):
            if e[0] == "rec":
                for pr in (True, False):
                    f = o.state.facts.assume(pretty if pr else c_not(pretty))
                    if f is not None and not f.contradictory():
                        starts.setdefault((e[1], pr), None)
    for tid, x, facts in api.seen:
        for (k, pr) in starts:
            if formatter_of(E, F, k) == tid:
                s = starts[(k, pr)]
                starts[(k, pr)] = x if s is None else generalise(E, s, x, facts)
    return rows, starts, sorted(texts_of(E, outs)), group, E.konst


def all_events(E, log, d=0):
    for e in events(log):
        yield e
        if e[0] == "loop" and d < 4 and e[2] in E.loops:
            for s, lg in E.loops[e[2]].backs:
                yield from all_events(E, lg, d + 1)


def formatter_of(E, F, key):
    """The type of the formatter a function writes a value with."""
    b = F["fns"][key]
    for i in range(b["argc"]):
        t = F["types"][b["locals"][i + 1]]
        if t["k"] == "ref":
            x = F["types"][t["e"]]
            if x["k"] == "adt" and x.get("local") and x.get("path") != "yason::yason::LazyValue" and x.get("adt") == "struct":
                return t["e"]
    return None


def case_of(S, E, v):
    from check_query import case
    if isinstance(v, Sym) and E.T[v.tid].get("adt") == "struct":
        v = E.expand(v)
    return case(S, E, v)


def part_of(E, v, n, i):
    from check_query import part
    return part(E, v, n, i)
