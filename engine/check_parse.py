"""C17 and C18: parsing path expressions.

from_str is analysed with everything it calls.  Every accepting path, and one iteration of every loop on
it, is compared with the grammar of path expressions: the steps appended must be those that the bytes between
the positions at which the iteration starts and ends denote."""
from terms import *
import interp
import models
import scanning
from interp import Ptr, Sl, VecV, Sym, Adt

ROOT = "core::str::traits::FromStr>::from_str"
WS = frozenset((9, 10, 12, 13, 32))
DIGITS = frozenset(range(48, 58))
LETTERS = frozenset(range(65, 91)) | frozenset(range(97, 123))
ALNUM = DIGITS | LETTERS
MAX_INDEX = (1 << 31) - 1
REJECTION = "rejection"
METHODS = {"Count": b"count", "Size": b"size", "Type": b"type"}


class Bad(Exception):
    pass


def root_of(F):
    ks = [k for k in F["fns"] if k.split("#")[0] == "<yason::path::PathExpression as " + ROOT]
    return ks[0] if len(ks) == 1 else None


def engine(F):
    E = interp.Engine(F, models, max_states=1500000)
    E.unroll_k = 0
    E.heads = {}
    E.cuts = scanning.Join()
    E.on_byte = scanning.on_byte
    E.after_loop = scanning.after_loop
    E.on_adt = rejection
    return E


def rejection(E, st, tid, fields):
    """Notes the facts under which an error is made."""
    if (E.T[tid].get("path") or "").rsplit("::", 1)[-1] == "PathParseError":
        E.obligations.append((True, REJECTION, E.user_span(st), tuple(f.body["path"] for f in st.frames), "", (list(fields), st.copy())))


_cache = {}


def analyse(F):
    if "r" not in _cache:
        k = root_of(F)
        if k is None:
            _cache["r"] = None
        else:
            E = engine(F)
            b = F["fns"][k]
            args = [E.mk(("arg", i), b["locals"][i + 1]) for i in range(b["argc"])]
            outs = E.run(E.start(k, args))
            _cache["r"] = (E, outs)
    return _cache["r"]


def name_of(E, v):
    t = E.T[v.tid]
    return t.get("path", "").rsplit("::", 1)[-1], t["variants"][v.var]["n"]


def byte(region, off):
    return A(("byte", region, off), 0, 255)


class View:
    """One path: its facts, and what they say about the input."""

    def __init__(self, P, s):
        self.P, self.E, self.s, self.f = P, P.E, s, s.facts
        self.region = P.region
        self.bytes_ = None
        self.atoms = scanning.atoms_of(s.facts)
        self.known = {}
        self.doms = {}

    def same(self, a, b):
        d = a - b
        if d.is_const():
            return d.c == 0
        if d not in self.known:
            self.known[d] = all(x in self.atoms for x, _ in d.t) and self.f.entails(c_eq(d))
        return self.known[d]

    def dom(self, p):
        """The values the byte at p can have, or None."""
        if p in self.doms:
            return self.doms[p]
        a = single_atom(byte(self.region, p))
        out = self.f._dom(a) if a is not None else None
        if self.bytes_ is None:
            self.bytes_ = [(a, ATOM_KEY[a][2]) for a in self.atoms if isinstance(ATOM_KEY[a], tuple) and ATOM_KEY[a][0] == "byte" and ATOM_KEY[a][1] == self.region and isinstance(ATOM_KEY[a][2], Lin)]
        for a, off in self.bytes_:
            d = self.f._dom(a)
            if off != p and d is not None and len(d) < 256 and self.same(off, p):
                out = d if out is None else out & d
        self.doms[p] = out = None if out is None or len(out) > 255 else out
        return out

    def at(self, p, allowed):
        d = self.dom(p)
        return d is not None and d <= allowed

    def runs(self, p, allowed, least=frozenset()):
        """The ends of the runs of allowed bytes from p."""
        rest = []
        for r, (bits, region, base) in list(self.E.runs.items()):
            if region == self.region and least <= bits <= allowed:
                if base == p:
                    yield p + lin_atom(r)
                else:
                    rest.append((r, base))
        for r, base in rest:
            if self.same(base, p):
                yield p + lin_atom(r)

    def blanks(self, p, d=0):
        """Positions with nothing but white space between p and them."""
        yield p
        if d < 3:
            if self.at(p, WS):
                yield from self.blanks(p + 1, d + 1)
            for q in self.runs(p, WS):
                # nothing is left after a run that is empty or taken
                if not self.same(p, q):
                    yield from self.blanks(q, d + 1)

    def token(self, p, text):
        """The end of the text written at p, after white space."""
        for q in self.blanks(p):
            if all(self.at(q + i, {c}) for i, c in enumerate(text)):
                return q + len(text)
        return None

    def ended(self, p):
        return any(self.f.entails(c_ge(q - self.P.length)) for q in self.blanks(p))

    def loops(self):
        """The loops this path has been through, with the last one first."""
        ids = [e[1] for e in self.s.log if e[0] == "loop"]
        return [self.P.by_id[i] for i in reversed(ids) if i in self.P.by_id]


class Parse:
    def __init__(self, E, outs):
        self.E, self.outs = E, outs
        self.by_id = {L.id: L for L in E.loops.values()}
        self.region = ("sym", ("arg", 0))
        self.length = scanning.region_len(E, self.region)
        self.count = {}
        self.memo = {}

    def good(self, what):
        self.count[what] = self.count.get(what, 0) + 1

    # numbers

    def number(self, V, p, v):
        """The end of the number v written at p."""
        for L in V.loops():
            pair = next((c for c in L.carried if c[2] == v), None)
            if pair is None:
                continue
            for loc, init, cur, nexts in L.carried:
                if cur == v or not V.same(init, p):
                    continue
                self.digits(L, pair, (loc, init, cur, nexts))
                if not V.f.entails(c_ge(const(MAX_INDEX) - v)) and not all(s.facts.entails(c_ge(const(MAX_INDEX) - x)) for (s, _), x in zip(L.backs, pair[3])):
                    raise Bad("a subscript can exceed 2^31-1")
                # the byte at p is a digit, so that a run of digits from p is not empty
                if not V.f.entails(c_ge(cur - p - 1)) and not any(V.same(cur, e) for e in V.runs(p, DIGITS, DIGITS)):
                    raise Bad("a subscript without digits is accepted")
                return cur
        raise Bad("a subscript is not computed from the digits written")

    def digits(self, L, val, pos):
        """Each iteration takes one digit."""
        k = ("digits", L.id, val[0], pos[0])
        if k not in self.memo:
            self.memo[k] = True
            if val[1] != ZERO:
                raise Bad("the value of a subscript does not start at zero")
            for s, _ in L.backs:
                V = View(self, s)
                if not V.at(pos[2], DIGITS):
                    raise Bad("a subscript contains something other than digits")
            for n, q in zip(val[3], pos[3]):
                want = val[2].scale(10) + byte(self.region, pos[2]) - 48
                if q != pos[2] + 1 or n != want:
                    raise Bad("an iteration over the digits makes %s of the value" % show_lin(n)[:80])
            self.good("digit loops")

    def index(self, V, p, v):
        """The end of the subscript v (an index or `last` minus an offset) written at p."""
        t, n = name_of(self.E, v)
        if t != "SingleIndex":
            raise Bad("a subscript is a %s" % t)
        if n == "Index":
            for q in V.blanks(p):
                if V.at(q, DIGITS):
                    return self.number(V, q, v.f[0])
            raise Bad("an index is stored where no number is written")
        q = V.token(p, b"last")
        if q is None:
            raise Bad("a subscript counts from the end although `last` is not written")
        m = V.token(q, b"-")
        if m is None:
            if v.f[0] != ZERO:
                raise Bad("`last` without an offset is stored with one")
            return q
        for d in V.blanks(m):
            if V.at(d, DIGITS):
                return self.number(V, d, v.f[0])
        raise Bad("an offset from the end is stored where no number is written")

    def cell(self, V, p, v):
        t, n = name_of(self.E, v)
        if t != "SingleStep":
            raise Bad("an array step contains a %s" % t)
        q = self.index(V, p, v.f[0])
        if n == "Range":
            m = V.token(q, b"to")
            if m is None:
                raise Bad("a range is stored although `to` is not written")
            return self.index(V, m, v.f[1])
        return q

    def cells(self, V, p, ws):
        """The positions after the cells written from p, which a vector holds, and whether a comma follows the last one."""
        ws = list(ws)
        st = (p, True)        # position, and whether a cell is expected
        n = ZERO
        for i, w in enumerate(ws):
            if w[0] == "loopw":
                L = self.by_id.get(w[1][0])
                if L is None:
                    raise Bad("the cells of an array step are appended in an unknown loop")
                st = self.cell_loop(V, L, w[1], st)
                ln = next((c for c in L.carried if c[0][0] == w[1][1] and c[0][-1] == "len"), None)
                if ln is None:
                    raise Bad("the number of cells is unknown")
                if ln[1] != n:
                    raise Bad("cells are missing before a loop")
                n = ln[2]
            elif w[0] == "w" and w[3][0] == "val" and w[2] == const(1) and w[1] == n:
                q, want = st
                if not want:
                    q = V.token(q, b",")
                    if q is None:
                        raise Bad("two cells of an array step have no comma between them")
                st = (self.cell(V, q, w[3][1]), False)
                n = n + 1
            else:
                raise Bad("the cells of an array step are built in an unknown way")
        return st, n

    def cell_loop(self, V, L, mark, st):
        """A loop over cells: each iteration appends the cells it parses."""
        p, want = st
        for loc, init, cur, nexts in L.carried:
            if loc[-1] in ("len", "cap") or not isinstance(init, Lin):
                continue
            if not any(V.same(init, q) for q in V.blanks(p)):
                # a comma may have been taken before the loop
                c = None if want else V.token(p, b",")
                if c is None or not any(V.same(init, q) for q in V.blanks(c)):
                    continue
                want = True
            k = ("cells", L.id, loc, want)
            if k not in self.memo:
                self.memo[k] = True
                for (s, _), nx in zip(L.backs, nexts):
                    self.cell_back(L, mark, s, cur, nx, want)
                self.good("cell loops")
            return cur, want
        raise Bad("a loop over the cells of an array step does not start where they do")

    def cell_back(self, L, mark, s, cur, nx, want):
        V = View(self, s)
        v = vec_at(self.E, s, mark)
        if v is None or not v.writes or v.writes[0][0] != "loopw":
            raise Bad("the cells of an array step are built in an unknown way")
        p, expect = cur, want
        n = next(c for c in L.carried if c[0][0] == mark[1] and c[0][-1] == "len")[2]
        for w in v.writes[1:]:
            if w[0] != "w" or w[3][0] != "val" or w[2] != const(1) or w[1] != n:
                raise Bad("the cells of an array step are built in an unknown way")
            if not expect:
                p = V.token(p, b",")
                if p is None:
                    raise Bad("two cells of an array step have no comma between them")
            p = self.cell(V, p, w[3][1])
            n, expect = n + 1, False
        if v.len != n:
            raise Bad("an iteration over the cells does not append what it parsed")
        if want and not expect:
            p = V.token(p, b",")
            if p is None:
                raise Bad("two cells of an array step have no comma between them")
        elif want != expect:
            raise Bad("an iteration over the cells appends none")
        if not any(V.same(q, nx) for q in V.blanks(p)):
            raise Bad("a cell of an array step is followed by something that is skipped")
        self.good("cells")

    # keys

    def text(self, V, v):
        """The part of the input a string holds: (begin, end)."""
        b = v
        while isinstance(b, Adt) and len(b.f) == 1:
            b = b.f[0]
        if not isinstance(b, VecV) or b.init is not None or len(b.writes) != 1:
            raise Bad("a key is built in an unknown way")
        w = b.writes[0]
        if w[0] != "w" or w[1] != ZERO or w[3][0] != "copy" or w[2] != b.len:
            raise Bad("a key is built in an unknown way")
        region, off, n = w[3][1], w[3][2], w[2]
        for _ in range(3):
            if region == self.region:
                return off, off + n
            k = region[1]
            if region[0] == "sym" and k[0] == "f" and k[1][0] == "pure" and k[1][1].rsplit("::", 1)[-1].startswith("from_utf8") and "lossy" not in k[1][1]:
                sl = k[1][3][0]
                if isinstance(sl, Sl) and off == ZERO and n == scanning.region_len(self.E, region):
                    region, off, n = sl.region, sl.off, sl.len
                    continue
            break
        raise Bad("a key is not a copy of what is written")

    def quoted(self, V, p, v):
        """The end of the quoted key written at p, where the opening quote is."""
        b, e = self.text(V, v)
        if not V.same(b, p + 1):
            raise Bad("a quoted key does not start after the opening quote")
        ends = [b]
        for L in V.loops():
            for loc, init, cur, nexts in L.carried:
                if isinstance(init, Lin) and any(c in str(loc) for c in ("len", "cap")) is False and V.same(init, b):
                    if self.inside(L, loc, cur, nexts):
                        ends.append(cur)
        for q in ends:
            for x in self.chunks(V, q):
                if V.same(x, e):
                    if not V.at(e, {34}):
                        raise Bad("a quoted key does not end at a quote")
                    return e + 1
        raise Bad("a quoted key does not end at the first quote that is not escaped")

    def chunks(self, V, q):
        """Positions reached from q over unescaped bytes and escape sequences."""
        plain = frozenset(range(256)) - {34, 92}
        out = [q]
        for x in out:
            if len(out) > 12:
                break
            nx = list(V.runs(x, plain))
            d = V.dom(x)
            if d is not None and d <= plain:
                nx.append(x + 1)
            if d is not None and d == {92}:
                nx.append(x + 2)
            out += [y for y in nx if y not in out]
        return out

    def inside(self, L, loc, cur, nexts):
        k = ("quoted", L.id, loc)
        if k not in self.memo:
            self.memo[k] = all(any(View(self, s).same(x, n) for x in self.chunks(View(self, s), cur)) for (s, _), n in zip(L.backs, nexts))
            if self.memo[k]:
                self.good("quoted key loops")
        return self.memo[k]

    def unquoted(self, V, p, v):
        b, e = self.text(V, v)
        if not V.same(b, p):
            raise Bad("an unquoted key does not start where it is written")
        if not V.at(b, LETTERS):
            raise Bad("an unquoted key does not start with a letter")
        for r, (bits, region, base) in list(self.E.runs.items()):
            if region == self.region and frozenset(bits) == ALNUM and V.same(base, b) and V.same(b + lin_atom(r), e):
                return e
        raise Bad("an unquoted key is not the longest run of letters and digits")

    def key(self, V, p, v):
        for q in V.blanks(p):
            if V.at(q, {34}):
                return self.quoted(V, q, v)
        for q in V.blanks(p):
            if V.at(q, LETTERS):
                return self.unquoted(V, q, v)
        raise Bad("a key is stored where none is written")

    # steps

    def step(self, V, p, v):
        """The end of the step v written at p, and whether it has to be the last one."""
        t, n = name_of(self.E, v)
        if t != "Step":
            raise Bad("the path contains a %s" % t)
        self.kinds.add(n)
        if n == "Root":
            raise Bad("the root is stored as a later step")
        if n == "Array":
            q = V.token(p, b"[")
            if q is None:
                raise Bad("an array step is stored where no bracket is written")
            q = self.array(V, q, v.f[0])
            e = V.token(q, b"]")
            if e is None:
                raise Bad("an array step does not end with its closing bracket")
            return e, False
        q = V.token(p, b".")
        if q is None:
            raise Bad("a step is stored where no dot is written")
        if n == "Descendent":
            if not V.at(q, {46}):
                raise Bad("a descendant step is stored where one dot is written")
            return self.key(V, q + 1, v.f[0]), False
        if n == "Object":
            t, n = name_of(self.E, v.f[0])
            if n == "Wildcard":
                e = V.token(q, b"*")
                if e is None:
                    raise Bad("a wildcard is stored where none is written")
                return e, False
            return self.key(V, q, v.f[0].f[0]), False
        if n == "Func":
            t, n = name_of(self.E, v.f[0])
            e = V.token(q, METHODS[n])
            for tok in (b"(", b")"):
                e = V.token(e, tok) if e is not None else None
            if e is None:
                raise Bad("the item method %s is stored where %s() is not written" % (n, METHODS[n].decode()))
            return e, True
        raise Bad("the path contains a step %s" % n)

    def array(self, V, p, v):
        t, n = name_of(self.E, v)
        self.kinds.add("Array " + n)
        if n == "Wildcard":
            q = V.token(p, b"*")
            if q is None:
                raise Bad("an array wildcard is stored where none is written")
            return q
        if n == "Multiple":
            vec = v.f[0]
            if not isinstance(vec, VecV) or vec.init is not None:
                raise Bad("the cells of an array step are built in an unknown way")
            (q, want), k = self.cells(V, p, vec.writes)
            if want:
                raise Bad("an array step ends with a comma")
            if k != vec.len:
                raise Bad("the cells of an array step are not those written")
            return q
        q = self.alone(V, p)
        if n in ("Index", "Last"):
            return self.index(V, q, Adt(self.single(v, n), 0 if n == "Index" else 1, [v.f[0]]))
        q = self.index(V, q, v.f[0])
        m = V.token(q, b"to")
        if m is None:
            raise Bad("a range is stored although `to` is not written")
        return self.index(V, m, v.f[1])

    def single(self, v, n):
        t = next(i for i, x in enumerate(self.E.T) if x and (x.get("path") or "").endswith("parse::SingleIndex"))
        names = [w["n"] for w in self.E.T[t]["variants"]]
        if names[:2] != ["Index", "Last"]:
            raise Bad("SingleIndex has other variants")
        return t

    def alone(self, V, p):
        """Where the only cell of an array step starts."""
        for L in V.loops():
            ln = next((c for c in L.carried if c[0][-1] == "len" and c[1] == ZERO and V.f.entails(c_eq(c[2]))), None)
            if ln is None:
                continue
            mark = (L.id,) + tuple([ln[0][0]])
            for loc, init, cur, nexts in L.carried:
                if loc[-1] not in ("len", "cap") and isinstance(init, Lin) and any(V.same(init, q) for q in V.blanks(p)):
                    k = ("cells", L.id, loc, True)
                    if k not in self.memo:
                        self.memo[k] = True
                        for (s, _), nx in zip(L.backs, nexts):
                            self.cell_back(L, mark, s, cur, nx, True)
                        self.good("cell loops")
                    return cur
        return p

    # the whole

    def steps(self, s, p, ws, n, end, head):
        """The steps appended on a path, from position p to position end (or the end of the input)."""
        V = View(self, s)
        last = False
        for w in ws:
            if w[0] != "w" or w[3][0] != "val" or w[2] != const(1) or w[1] != n:
                raise Bad("the steps are collected in an unknown way")
            if last:
                raise Bad("an item method is followed by a step")
            p, last = self.step(V, p, w[3][1])
            n = n + 1
        if last and not V.ended(p):
            raise Bad("an item method is accepted before the end of the path")
        if end is None:
            if not V.ended(p):
                raise Bad("a path is accepted although not all of it has been read")
        elif not any(V.same(q, end) for q in V.blanks(p)):
            raise Bad("something between two steps is skipped")
        return n

    def accepted(self, o):
        """A path on which an expression is returned."""
        v = o.value.f[0]
        while isinstance(v, Adt) and len(v.f) == 1:
            v = v.f[0]
        if not isinstance(v, VecV) or v.init is not None:
            raise Bad("the steps are collected in an unknown way")
        V = View(self, o.state)
        ws = list(v.writes)
        w = ws[0] if ws else None
        if w is None or w[0] != "w" or w[1] != ZERO or w[2] != const(1) or w[3][0] != "val" or name_of(self.E, w[3][1]) != ("Step", "Root"):
            raise Bad("an expression does not start with the root")
        p = V.token(ZERO, b"$")
        if p is None:
            raise Bad("an expression is accepted that does not start with $")
        self.good("accepting paths")
        n = const(1)
        if len(ws) > 1 and ws[1][0] == "loopw":
            L = self.by_id.get(ws[1][1][0])
            mark = ws[1][1]
            ln = next((c for c in L.carried if c[0][:1] == (mark[1],) and c[0][-1] == "len"), None) if L else None
            if ln is None or ln[1] != n:
                raise Bad("the steps are collected in an unknown way")
            for loc, init, cur, nexts in L.carried:
                if loc[-1] in ("len", "cap") or not isinstance(init, Lin) or not any(V.same(init, q) for q in V.blanks(p)):
                    continue
                if ("steps", L.id, loc) not in self.memo:
                    self.memo["steps", L.id, loc] = True
                    self.main = L
                    for (s, _), nx in zip(L.backs, nexts):
                        self.back(L, mark, s, cur, nx, ln[2])
                p = cur
                break
            else:
                raise Bad("the loop over the steps does not start after the root")
            n = ln[2]
            ws = ws[2:]
        else:
            ws = ws[1:]
        n = self.steps(o.state, p, ws, n, None, False)
        if n != v.len:
            raise Bad("the steps of an expression are not those parsed")

    def back(self, L, mark, s, cur, nx, n):
        v = vec_at(self.E, s, mark)
        ws = list(v.writes) if v is not None else []
        i = next((i for i, w in enumerate(ws) if w[0] == "loopw" and w[1][0] == L.id), None)
        if i is None:
            raise Bad("the steps are collected in an unknown way")
        m = self.steps(s, cur, ws[i + 1:], n, nx, True)
        if m != v.len:
            raise Bad("an iteration over the steps does not append what it parsed")
        if m != n and not s.facts.entails(c_ge(self.length - cur - 1)):
            raise Bad("a step is stored at the end of the path")
        self.good("iterations over the steps")


def vec_at(E, s, mark):
    """The vector a mark of a loop refers to, in the state at the end of an iteration."""
    _, cell = mark[0], mark[1]
    v = s.mem.get(cell)
    path = mark[2:]
    for i in path:
        if not isinstance(v, Adt):
            return None
        v = v.f[i]
    while isinstance(v, Adt) and len(v.f) == 1:
        v = v.f[0]
    return v if isinstance(v, VecV) else None


def termination(E, R, rows):
    n = 0
    for L in E.loops.values():
        n += 1
        f = (L.fn if isinstance(L.fn, str) else str(L.fn)).split("#")[0].rsplit("::", 1)[-1]
        ok = not L.backs
        for loc, init, cur, nexts in L.carried:
            if loc[-1] == "cap" or len(nexts) != len(L.backs) or not isinstance(cur, Lin):
                continue
            if all(isinstance(x, Lin) and s.facts.entails(c_ge(x - cur - 1)) for (s, _), x in zip(L.backs, nexts)):
                ok = True
                break
        if not ok:
            rows.append(("loop:" + f, "a loop of %s has an iteration that makes no progress" % f))
        else:
            R.good("loops with progress", 1, {"function": f, "ways back": len(L.backs)})
    return n


def common(F, R):
    r = analyse(F)
    if r is None:
        R.bad("missing:from_str", "PathExpression::from_str is not found in the current source")
        return None
    R.use(r[0])
    return r


def C17(F, R):
    R.rules.append("every path through PathExpression::from_str, with everything it calls, ends by returning: no path panics, every access and every unchecked operation is within its bounds, every loop moves a position forward on each way back, and no function is called recursively")
    R.assumptions += ["core::str::from_utf8 does not panic", "allocation failures abort the process where the code does not reserve fallibly", "arithmetic overflow is treated as a panic; debug assertions are left aside"]
    r = common(F, R)
    if r is None:
        return
    E, outs = r
    rows = []
    for o in outs:
        where = o.stack[-1].rsplit("::", 1)[-1] if o.stack else "from_str"
        if o.kind == "panic":
            rows.append(("panic:%s:%s" % (where, o.msg[:60]), "%s in %s" % (o.msg, where)))
        elif o.kind != "ret":
            rows.append(("undecided:%s:%s" % (where, o.msg[:60]), "%s in %s" % (o.msg, where)))
        else:
            R.good("paths that return")
    for k in E.unmodelled:
        rows.append(("undecided:" + str(k)[:60], "call of %s is not modelled" % (k,)))
    for ok, what, span, stack, cond, st in E.obligations:
        if "reservation" in what or what == REJECTION:
            continue
        if ok:
            R.good(what)
        else:
            w = stack[-1].rsplit("::", 1)[-1] if stack else "?"
            rows.append(("bounds:%s:%s" % (w, what[:60]), "%s: not proven in %s (%s)" % (what, " > ".join(x.rsplit("::", 1)[-1] for x in stack[-3:]), cond[:160])))
    n = termination(E, R, rows)
    for k, t in rows:
        R.bad(k, t)
    R.floor("loops", n, 5)
    R.floor("outcomes", len(outs), 20)


KINDS = {"Array", "Descendent", "Object", "Func", "Array Index", "Array Last", "Array Range", "Array Multiple", "Array Wildcard"}


def C18(F, R):
    R.rules.append("every accepting path of PathExpression::from_str, and every iteration of its loops over steps, cells, digits and quoted text, is compared with the grammar: the values appended are those denoted by the bytes between the positions at which the iteration starts and ends")
    R.assumptions += ["white space may be written wherever tokens meet", "escape sequences of quoted keys are kept as written", "core::str::from_utf8 returns the text of the bytes it accepts"]
    r = common(F, R)
    if r is None:
        return
    E, outs = r
    P = Parse(E, outs)
    P.kinds = set()
    n = 0
    for o in outs:
        if o.kind == "unsupported":
            R.bad("undecided:" + o.msg[:60], "%s in %s" % (o.msg, o.stack[-1].rsplit("::", 1)[-1] if o.stack else "from_str"))
        if o.kind != "ret" or not isinstance(o.value, Adt) or o.value.var != 0:
            continue
        n += 1
        try:
            P.accepted(o)
        except Bad as b:
            R.bad("parse:" + str(b)[:80], str(b))
    for what, k in P.count.items():
        R.good(what, k)
    for k in sorted(KINDS - P.kinds):
        R.bad("missing:" + k, "no path stores a step %s" % k)
    R.floor("accepting paths", n, 1)
    R.floor("iterations over the steps", P.count.get("iterations over the steps", 0), 9)
    R.floor("digit loops", P.count.get("digit loops", 0), 1)


ESCAPES = frozenset(b'bfnrt"/\\')


class Reject:
    """The cause of an error, at the place where it is made."""

    def __init__(self, P, fields, s):
        self.P, self.E = P, P.E
        self.V = V = View(P, s)
        self.f = s.facts
        kind = [x for x in fields if isinstance(x, Adt)]
        pos = [x for x in fields if isinstance(x, Lin)]
        if len(kind) != 1 or len(pos) != 1:
            raise Bad("an error is made of something other than a kind and a position")
        self.kind, self.pos = name_of(self.E, kind[0])[1], pos[0]
        V.dom(self.pos)

    def inside(self):
        return self.f.entails(c_ge(self.P.length - self.pos))

    def over(self):
        return self.f.entails(c_ge(self.pos - self.P.length))

    def isnt(self, p, bad):
        """Whether none of the bytes is at p, if anything is."""
        return not self.rest(self.V, p, frozenset(bad))

    def rest(self, V, p, bad):
        """The bytes among those given that can be at p."""
        d = V.dom(p)
        if d is not None:
            bad &= d
        for r, (bits, region, base) in list(self.E.runs.items()):
            if bad & bits and region == self.P.region and V.same(base + lin_atom(r), p):
                bad -= bits
        for L in self.P.by_id.values() if bad else ():
            for _, init, cur, nexts in L.carried:
                # where a loop is: where it starts, or where an iteration ends
                if cur == p and isinstance(init, Lin) and all(isinstance(x, Lin) for x in nexts) and len(nexts) == len(L.backs):
                    k = ("rest", L.id, p, bad)
                    if k not in self.P.memo:
                        self.P.memo[k] = bad
                        left = self.rest(V, init, bad)
                        for (s, _), x in zip(L.backs, nexts):
                            left |= self.rest(View(self.P, s), x, bad)
                        self.P.memo[k] = left
                    bad &= self.P.memo[k]
        return bad

    def known(self, c):
        """The positions at which the byte c is known to be."""
        for a, off in self.V.bytes_:
            if self.f._dom(a) == {c}:
                yield off

    def after(self, c, p):
        """Whether there is only white space between the byte c and p."""
        return any(self.V.same(q, p) for off in self.known(c) for q in self.V.blanks(off + 1))

    def cause(self):
        """What the error says is the case, or why it is not."""
        f = getattr(self, self.kind, None)
        if f is None:
            raise Bad("the error %s is unknown" % self.kind)
        return f()

    def NotStartWithDollar(self):
        p = self.pos if self.over() else self.pos - 1
        if not self.over() and not self.isnt(p, b"$ "):
            return "the first byte after the blanks can be $"
        if not any(self.V.same(p, q) for q in self.V.blanks(ZERO)):
            return "there is more than blanks before the byte that should be $"

    def MissingSquareBracket(self):
        if self.after(93, self.pos) if self.over() else not self.isnt(self.pos - 1, WS | {93}):
            return "the closing bracket can be there"

    def ArrayStepSyntaxError(self):
        if not (self.after(45, self.pos) if self.over() else self.isnt(self.pos, WS | DIGITS)):
            return "a subscript can be there"

    def ArrayIndexTooLong(self):
        for L in self.P.by_id.values():
            for _, init, val, _ in L.carried:
                if init != ZERO or not isinstance(val, Lin):
                    continue
                for _, _, cur, _ in L.carried:
                    if isinstance(cur, Lin) and cur != val and self.f.entails(c_ge(val.scale(10) + byte(self.P.region, cur) - 48 - MAX_INDEX - 1)):
                        return None
        return "the subscript can be at most 2^31-1"

    def EmptyArrayStep(self):
        if not self.V.at(self.pos, {93}) or not self.after(91, self.pos):
            return "something can be between the brackets"

    def InvalidEscapeSequence(self):
        if self.over() and self.V.at(self.pos - 1, {92}):
            return None
        if not self.V.at(self.pos - 2, {92}) or not self.isnt(self.pos - 1, ESCAPES):
            return "the escape sequence can be a valid one"

    def UnclosedQuotedStep(self):
        if not self.over():
            return "the closing quote can follow"

    def InvalidKeyStep(self):
        if self.V.at(self.pos - 1, {34}) and self.not_utf8():
            return None
        if not self.after(46, self.pos) or not self.over() and not self.isnt(self.pos, LETTERS | WS | {34}):
            return "a key can be there"

    def InvalidFunction(self):
        if self.over() and self.after(41, self.pos):
            return self.unnamed()
        if not self.after(40, self.pos) or not self.over() and not self.isnt(self.pos, WS | {41}):
            return "the closing parenthesis can be there"

    def UnexpectedCharacterAtEnd(self):
        if not self.f.entails(c_ge(self.P.length - self.pos - 1)) or not self.isnt(self.pos, WS):
            return "the path can end there"
        if not self.after(41, self.pos) and not self.isnt(self.pos, b".[("):
            return "the next step can be there"

    def InvalidCharacterAtStepStart(self):
        if not self.isnt(self.pos - 1, b".["):
            return "a step can start there"

    def TryReserveError(self):
        return None

    def unnamed(self):
        """The word before the parentheses is none of the methods."""
        for r, (bits, region, base) in list(self.E.runs.items()):
            if region != self.P.region or frozenset(bits) != ALNUM:
                continue
            q = self.V.token(base + lin_atom(r), b"(")
            q = self.V.token(q, b")") if q is not None else None
            if q is None or not any(self.V.same(x, self.pos) for x in self.V.blanks(q)):
                continue
            for n, m in METHODS.items():
                if not all(c in (self.V.dom(base + i) or (c,)) for i, c in enumerate(m)):
                    continue
                c = c_eq(lin_atom(r) - len(m))
                for i, ch in enumerate(m):
                    c = c_and(c, c_eq(byte(region, base + i) - ch))
                if not self.f.entails(c_not(c)):
                    return "the method can be %s()" % m.decode()
            return None
        return "the method can be a known one"

    def not_utf8(self):
        for a in self.V.atoms:
            k = ATOM_KEY[a]
            if isinstance(k, tuple) and k[0] == "discr" and k[1][0] == "pure" and k[1][1].rsplit("::", 1)[-1] == "from_utf8" and self.f._dom(a) == {1}:
                sl = k[1][3][0]
                if isinstance(sl, Sl) and sl.region == self.P.region and self.V.same(sl.off + sl.len, self.pos - 1):
                    return True
        return False


def C34(F, R):
    R.rules.append("wherever PathExpression::from_str, or anything it calls, makes an error, the facts of the path imply that the reported position is within the text and that the bytes there are what the error says: none of those with which the text could go on")
    R.assumptions += ["an error is given the position reached, and the byte that does not fit is the one there or, where it has been taken, the one before", "a word that is neither `last` nor `to`, and a missing comma, are reported as what is found instead"]
    r = common(F, R)
    if r is None:
        return
    E, outs = r
    P = Parse(E, outs)
    kinds = set()
    n = 0
    for o in outs:
        if o.kind == "unsupported":
            R.bad("undecided:" + o.msg[:60], "%s in %s" % (o.msg, o.stack[-1].rsplit("::", 1)[-1] if o.stack else "from_str"))
    for ob in E.obligations:
        if ob[1] != REJECTION:
            continue
        n += 1
        stack, (fields, s) = [x.rsplit("::", 1)[-1] for x in ob[3] if "{closure" not in x], ob[5]
        where = next((x for x in reversed(stack) if x != "new"), "from_str")
        try:
            e = Reject(P, fields, s)
            kinds.add(e.kind)
            if not e.inside():
                R.bad("position:%s:%s" % (where, e.kind), "%s is reported in %s at a position that can be beyond the end of the text" % (e.kind, where))
            why = e.cause()
            if why is not None:
                R.bad("cause:%s:%s" % (where, e.kind), "%s is reported in %s where %s" % (e.kind, where, why))
            else:
                R.good(e.kind)
        except Bad as b:
            R.bad("error:%s:%s" % (where, str(b)[:80]), "%s, in %s" % (b, where))
    # errors that are returned, and not made, are unknown
    for o in outs:
        if o.kind == "ret" and isinstance(o.value, Adt) and o.value.var == 1:
            e = o.value.f[0]
            ks = [x for x in e.f if isinstance(x, Adt)] if isinstance(e, Adt) else []
            if len(ks) != 1 or name_of(E, ks[0])[1] not in kinds:
                R.bad("returned", "an error is returned that is made in an unknown way")
            else:
                R.good("paths that return an error")
    R.floor("errors", n, 20)
    R.floor("kinds of error", len(kinds), 10)
