"""Abstract interpreter over the MIR facts.

Values are trees of canonical terms; control flow is partitioned by trace and
joined at loop heads, where the loop-carried part of the state is generalised to
fresh terms and an inductive invariant (linear equalities and inequalities) is
inferred; calls are analysed in their context by inlining, recursion and calls
without a body are uninterpreted events."""
import hashlib
import sys
from terms import *
from bits import bits_of, from_bits

sys.setrecursionlimit(20000)
USIZE_MAX = (1 << 64) - 1
ISIZE_MAX = (1 << 63) - 1


def len_max(term):
    """The most bytes a slice can have; two string arguments of one call cannot
    both take more than half of the address space a slice may span."""
    return 1 << 62 if isinstance(term, tuple) and term and term[0] == "as_ref" else ISIZE_MAX


class Unsupported(Exception):
    pass


class Split(Exception):
    """Raised when a value must be examined case by case: a list of facts that
    together cover the current ones."""
    def __init__(self, cases):
        self.cases = cases


class _Undef:
    def __repr__(self):
        return "undef"


UNDEF = _Undef()


class Adt:
    __slots__ = ("tid", "var", "f", "h")

    def __init__(self, tid, var, f):
        self.tid, self.var, self.f = tid, var, tuple(f)
        self.h = hash((tid, var, self.f))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Adt) and self.h == o.h and (self.tid, self.var, self.f) == (o.tid, o.var, o.f)

    def __repr__(self):
        return "%s#%s%r" % (TYNAME(self.tid), self.var, self.f)


class Arr:
    __slots__ = ("tid", "e", "h")

    def __init__(self, tid, e):
        self.tid, self.e = tid, tuple(e)
        self.h = hash((tid, self.e))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Arr) and self.h == o.h and self.e == o.e

    def __repr__(self):
        return "[%d elems]" % len(self.e) if len(self.e) > 8 else repr(list(self.e))


class Sl:
    """Pointer to a slice of a region."""
    __slots__ = ("region", "off", "len", "etid", "unit", "h")

    def __init__(self, region, off, ln, etid, unit=None):
        self.region, self.off, self.len, self.etid = region, off, ln, etid
        self.unit = etid if unit is None else unit
        self.h = hash((region, off, ln, etid))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Sl) and (self.region, self.off, self.len, self.etid, self.unit) == (o.region, o.off, o.len, o.etid, o.unit)

    def __repr__(self):
        return "slice(%s, %r, len %r)" % (show_region(self.region), self.off, self.len)


class Ptr:
    __slots__ = ("cell", "path", "h")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path
        self.h = hash((cell, path))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.cell == o.cell and self.path == o.path

    def __repr__(self):
        return "&%s%s" % (show_key(self.cell), list(self.path) or "")


class VecV:
    """A growable vector: length, guaranteed capacity, initial content and the
    writes made since."""
    __slots__ = ("etid", "len", "cap", "init", "writes", "h")

    def __init__(self, etid, ln, cap, init, writes=()):
        self.etid, self.len, self.cap, self.init, self.writes = etid, ln, cap, init, writes
        self.h = hash((etid, ln, cap, init, writes))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, VecV) and self.h == o.h and (self.etid, self.len, self.cap, self.init, self.writes) == (o.etid, o.len, o.cap, o.init, o.writes)

    def __repr__(self):
        return "vec(len %r, init %s, writes %s)" % (self.len, show_key(self.init), list(self.writes))

    def with_(self, **kw):
        d = dict(etid=self.etid, ln=self.len, cap=self.cap, init=self.init, writes=self.writes)
        d.update(kw)
        return VecV(d["etid"], d["ln"], d["cap"], d["init"], d["writes"])


class Sym:
    """An unknown value of a type, named by a term."""
    __slots__ = ("term", "tid", "h")

    def __init__(self, term, tid):
        self.term, self.tid = term, tid
        self.h = hash((term, tid))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Sym) and self.h == o.h and self.term == o.term and self.tid == o.tid

    def __repr__(self):
        return "?%s" % show_key(self.term)


class FnV:
    __slots__ = ("callee", "k")

    def __init__(self, callee):
        self.callee = callee
        self.k = callee.get("key") or callee.get("path") or callee.get("decl")

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return isinstance(o, FnV) and self.k == o.k

    def __repr__(self):
        return "fn " + self.k


def show_region(r):
    if r[0] == "const":
        return repr(bytes(r[1]))
    return show_key(r)


TYPES = None


def TYNAME(t):
    try:
        return TYPES[t]["s"]
    except Exception:
        return str(t)


def is_cond(v):
    return v is True or v is False or (type(v) is tuple and len(v) > 1 and v[0] in ("ge", "eq", "ne", "and", "or"))


class Frame:
    __slots__ = ("fid", "key", "bb", "dest", "target", "body", "site", "uniq")

    def __init__(self, fid, key, body, bb, dest, target, site):
        self.fid, self.key, self.body, self.bb, self.dest, self.target, self.site = fid, key, body, bb, dest, target, site

    def at(self, bb):
        return Frame(self.fid, self.key, self.body, bb, self.dest, self.target, self.site)


class State:
    __slots__ = ("mem", "facts", "frames", "log", "nfid", "ncall", "entry_cells", "skip_head", "tags")

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.frames = ()
        self.log = ()
        self.nfid = 0
        self.ncall = 0
        self.skip_head = None
        self.tags = ()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts, s.frames, s.log, s.nfid, s.ncall, s.tags = self.facts, self.frames, self.log, self.nfid, self.ncall, self.tags
        s.skip_head = self.skip_head
        return s

    def emit(self, ev):
        self.log = self.log + (ev,)


class Outcome:
    """kind: ret | panic | unsupported | diverge"""
    __slots__ = ("kind", "value", "state", "msg", "span", "stack")

    def __init__(self, kind, value, state, msg="", span="", stack=()):
        self.kind, self.value, self.state, self.msg, self.span, self.stack = kind, value, state, msg, span, stack

    def __repr__(self):
        return "<%s %r %s %s>" % (self.kind, self.value, self.msg, self.span)


class Loop:
    """Summary of a loop: carried locations with initial and next values, the
    invariant, and what one iteration does on each path back to the head."""
    __slots__ = ("id", "fn", "span", "carried", "inv", "backs", "entry", "exits", "panics", "head")


class Budget(Exception):
    pass


class Engine:
    def __init__(self, facts, models, cuts=None, max_states=60000, assume_alloc=False):
        global TYPES
        self.F = facts
        self.T = facts["types"]
        TYPES = self.T
        self.fns = facts["fns"]
        self.models = models
        self.cuts = cuts
        self.max_states = max_states
        self.nstates = 0
        self.loops = {}
        self.nloops = 0
        self.on_byte = None      # called with the state for every byte read
        self.after_loop = None   # called with every summarised loop and its exits
        self.runs = {}
        self.joined = 0
        self.loop_info = {}
        self.live_info = {}
        self.nounroll = set()
        self.le_hook = None
        self.u8 = next(i for i, t in enumerate(self.T) if t and t["s"] == "u8")
        self.usize = next(i for i, t in enumerate(self.T) if t and t["s"] == "usize")
        self.bool_ = next(i for i, t in enumerate(self.T) if t and t["s"] == "bool")
        import callgraph
        if "_heads" not in facts:
            facts["_heads"] = callgraph.heads(facts)
        self.heads = facts["_heads"]
        self.konst = {}
        self.konst_n = {}
        self.outcomes = None
        self.obligations = []     # (ok, what, span, fn)
        self.on_adt = None        # called for each struct or variant that is built
        self.analysed = set()
        self.callsites = 0
        self.unmodelled = {}
        self.unroll_k = 6
        self.rec_model = None
        self.loop_depth = 0
        self._std_ordering = None
        self._cur_frames = ()

    # ----------------------------------------------------------- types
    def tk(self, tid):
        return self.T[tid]["k"]

    def int_range(self, tid):
        t = self.T[tid]
        if t["k"] == "uint":
            return 0, (1 << t["w"]) - 1
        if t["k"] == "int":
            return -(1 << (t["w"] - 1)), (1 << (t["w"] - 1)) - 1
        if t["k"] == "char":
            return 0, 0x10FFFF
        if t["k"] == "bool":
            return 0, 1
        return None

    def unsized_elem(self, tid):
        """Element type if tid is a slice, str or a struct ending in one."""
        t = self.T[tid]
        if t["k"] == "slice":
            return t["e"]
        if t["k"] == "str":
            return self.u8
        if t["k"] == "adt" and t["adt"] == "struct" and len(t["variants"]) == 1:
            fs = t["variants"][0]["f"]
            if len(fs) == 1:
                return self.unsized_elem(fs[0]["t"])
        return None

    def is_vec(self, tid):
        t = self.T[tid]
        return t["k"] == "adt" and t["path"] == "alloc::vec::Vec"

    def path(self, tid):
        return self.T[tid].get("path")

    def fields(self, tid, var=0):
        t = self.T[tid]
        if t["k"] in ("tuple", "closure"):
            return t["fields"]
        if t["k"] == "adt":
            if not t["variants"]:
                return []
            return [f["t"] for f in t["variants"][var]["f"]]
        if t["k"] == "array":
            return [t["e"]] * t.get("n", 0)
        return []

    def strip_unit(self, tid):
        t = self.T[tid]
        while t["k"] == "adt" and t["path"] in ("core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop"):
            tid = t["args"][0]
            t = self.T[tid]
        return tid

    def stride(self, tid, unit):
        tid, unit = self.strip_unit(tid), self.strip_unit(unit)
        if tid == unit:
            return 1
        t = self.T[tid]
        if t["k"] == "array" and "n" in t and self.strip_unit(t["e"]) == unit:
            return t["n"]
        a, b = t.get("size"), self.T[unit].get("size")
        if a == b and a is not None:
            return 1
        if unit == self.u8 and a:
            return a
        raise Unsupported("pointer of type %s into elements of %s" % (TYNAME(tid), TYNAME(unit)))

    # ----------------------------------------------------------- values
    def mk(self, term, tid):
        t = self.T[tid]
        k = t["k"]
        if k == "bool":
            return c_atom(term)
        r = self.int_range(tid)
        if r:
            return typed(term, *r)
        if k in ("ref", "ptr"):
            e = self.unsized_elem(t["e"])
            if e is not None:
                return Sl(("sym", term), ZERO, A(("len", term), 0, len_max(term)), e)
            if self.tk(t["e"]) == "dyn":
                return Sym(term, tid)
            return Ptr(("ref", term, t["e"]))
        if k == "adt":
            if self.is_vec(tid):
                ln = A(("len", term), 0, ISIZE_MAX)
                return VecV(t["args"][0], ln, ln, ("sym", term))
            if t["path"] == "core::ptr::non_null::NonNull":
                inner = self.fields(tid)[0]
                return Adt(tid, 0, [self.mk(term, inner)])
            if t["adt"] == "struct":
                fs = self.fields(tid)
                if not fs:
                    return Adt(tid, 0, [])
                if len(fs) == 1 and t["local"]:
                    return Adt(tid, 0, [self.mk(("f", term, 0), fs[0])])
                if t["path"] == "alloc::string::String":
                    return Adt(tid, 0, [self.mk(("f", term, 0), fs[0])])
            if t["adt"] == "enum" and len(t["variants"]) == 1:
                return Adt(tid, 0, [self.mk(("f", term, 0, i), f) for i, f in enumerate(self.fields(tid))])
        if k == "tuple":
            return Adt(tid, 0, [self.mk(("f", term, i), f) for i, f in enumerate(t["fields"])])
        if k == "array" and t.get("n", 999) <= 64:
            return Arr(tid, [self.mk(("ix", term, i), t["e"]) for i in range(t["n"])])
        return Sym(term, tid)

    def key_of(self, v):
        """A hashable name of a value, for building terms."""
        return v

    def sym_field(self, s, var, i):
        fs = self.fields(s.tid, var or 0)
        if i >= len(fs):
            raise Unsupported("field %d of %s" % (i, TYNAME(s.tid)))
        term = ("f", s.term, i) if var is None else ("f", s.term, var, i)
        if var is not None and TYNAME(fs[i]) == "usize" and (self.T[s.tid].get("path") or "").rsplit("::", 2)[-2:] in (["parse", "SingleIndex"], ["parse", "ArrayStep"]):
            # C18 decides that the parser accepts no larger subscript
            return A(term, 0, (1 << 31) - 1)
        return self.mk(term, fs[i])

    def expand(self, s):
        """Expand a symbolic struct."""
        t = self.T[s.tid]
        if t["k"] in ("closure",) or (t["k"] == "adt" and t["adt"] == "struct"):
            return Adt(s.tid, 0, [self.sym_field(s, None, i) for i in range(len(self.fields(s.tid)))])
        raise Unsupported("expand %s" % TYNAME(s.tid))

    def proj(self, st, v, step):
        if isinstance(step, tuple):
            if step[0] == "ix":
                return self.arr_get(st, v, step[1])
            var, i = step
            if isinstance(v, Adt):
                if v.var != var:
                    raise Unsupported("downcast of variant %s to %s in %s" % (v.var, var, TYNAME(v.tid)))
                return v.f[i]
            if isinstance(v, Sym):
                return self.sym_field(v, var, i)
        else:
            if isinstance(v, Adt):
                return v.f[step]
            if isinstance(v, Sym):
                return self.sym_field(v, None, step)
            if isinstance(v, Arr):
                return v.e[step]
            if isinstance(v, Ptr) and step == 0:
                return v   # wrapper already stripped
        raise Unsupported("projection %s of %r" % (step, v))

    def arr_get(self, st, v, ix):
        if isinstance(v, Arr):
            lo, hi = st.facts.lin_lo(ix), st.facts.lin_hi(ix)
            if lo is not None and lo == hi and 0 <= lo < len(v.e):
                return v.e[lo]
            if v.e and all(isinstance(x, Lin) and x.is_const() for x in v.e):
                tb = tuple(x.c for x in v.e)
                return A(("tbl", tb, ix), min(tb), max(tb))
            a = single_atom(ix)
            if a is not None:
                d = st.facts._dom(a)
                if d is not None and all(0 <= i < len(v.e) for i in d):
                    groups = {}
                    for i in sorted(d):
                        groups.setdefault(v.e[i], set()).add(i)
                    if len(groups) == 1:
                        return next(iter(groups))
                    if len(groups) <= 64:
                        raise Split([self.restrict(st.facts, a, g) for g in groups.values()])
            t = self.T[v.tid]
            return self.mk(("ix", v, ix), t["e"])
        if isinstance(v, Sym):
            t = self.T[v.tid]
            return self.mk(("ix", v.term, ix.c if ix.is_const() else ix), t["e"])
        raise Unsupported("index of %r" % (v,))

    def restrict(self, f, a, vals):
        doms = dict(f.doms)
        doms[a] = frozenset(vals)
        g = Facts(f.ges, f.eqs, f.nes, doms, f.ors)
        if len(vals) == 1:
            g = g.assume(c_eq(lin_atom(a) - next(iter(vals)))) or g
        return g

    def proj_set(self, st, v, path, new, tid=None):
        if not path:
            return new
        step, rest = path[0], path[1:]
        if isinstance(v, Sym):
            t = self.T[v.tid]
            if isinstance(step, tuple) and step[0] != "ix":
                var = step[0]
                v = Adt(v.tid, var, [self.sym_field(v, var, i) for i in range(len(self.fields(v.tid, var)))])
            elif t["k"] == "array":
                v = Arr(v.tid, [self.mk(("ix", v.term, i), t["e"]) for i in range(t["n"])])
            else:
                v = self.expand(v)
        if v is UNDEF and tid is not None:
            t = self.T[tid]
            if t["k"] in ("tuple", "closure") or (t["k"] == "adt" and t["adt"] != "union"):
                var = step[0] if isinstance(step, tuple) else 0
                v = Adt(tid, var, [UNDEF] * len(self.fields(tid, var)))
        if isinstance(v, Adt):
            i = step[1] if isinstance(step, tuple) else step
            f = list(v.f)
            f[i] = self.proj_set(st, f[i], rest, new, self.fields(v.tid, v.var or 0)[i] if v.tid is not None else None)
            return Adt(v.tid, v.var if not isinstance(step, tuple) else step[0], f)
        if isinstance(v, Arr):
            if isinstance(step, tuple):
                lo, hi = st.facts.lin_lo(step[1]), st.facts.lin_hi(step[1])
                if lo is None or lo != hi:
                    t = self.T[v.tid]
                    return Sym(("upd", v, step[1], rest, new), v.tid)
                step = lo
            e = list(v.e)
            e[step] = self.proj_set(st, e[step], rest, new)
            return Arr(v.tid, e)
        raise Unsupported("write into %r" % (v,))

    # ----------------------------------------------------------- memory
    def region_size(self, st, region):
        k = region[0]
        if k == "sym":
            return A(("len", region[1]), 0, len_max(region[1]))
        if k in ("const", "arr"):
            return const(len(region[1]))
        if k == "place":
            v = self.read_cell(st, region[1], region[2])
            if isinstance(v, VecV):
                return v.len
            if isinstance(v, Arr):
                return const(len(v.e))
            if isinstance(v, Sym) and self.T[v.tid]["k"] == "array":
                return const(self.T[v.tid]["n"])
        return None

    def read_cell(self, st, cell, path=(), tid=None):
        if cell[0] == "el":
            v = self.read_elem(st, cell[1], cell[2], cell[3], tid if not path else None)
        else:
            v = st.mem.get(cell)
            if v is None:
                if cell[0] == "ref":
                    v = self.mk(("*", cell[1]), cell[2])
                elif cell[0] == "konst":
                    v = self.konst[cell[1]]
                else:
                    v = UNDEF
        for i, s in enumerate(path):
            if isinstance(v, VecV):
                return self.vec_internal(st, cell, path[:i], path[i:], v)
            v = self.proj(st, v, s)
        return v

    def vec_internal(self, st, cell, pre, rest, v):
        """Fields of Vec: buf.inner.{ptr, cap, alloc} and len."""
        if rest[0] == 1:
            return v.len
        if rest[:3] == (0, 0, 0):
            return Ptr(("el", ("place", cell, pre), ZERO, v.etid))
        raise Unsupported("vector field %s" % (rest,))

    def write_cell(self, st, cell, path, new, tid=None):
        if cell[0] == "el":
            if path:
                old = self.read_elem(st, cell[1], cell[2], cell[3], None)
                new = self.proj_set(st, old, path, new)
            return self.write_elem(st, cell[1], cell[2], cell[3], new, tid)
        if not path:
            st.mem[cell] = new
            return
        old = self.read_cell(st, cell)
        lt = None
        if old is UNDEF and len(cell) == 2 and isinstance(cell[0], int):
            lt = self.cell_tid(st, cell)
        st.mem[cell] = self.proj_set(st, old, path, new, lt)

    def cell_tid(self, st, cell):
        for f in st.frames:
            if f.fid == cell[0]:
                return f.body["locals"][cell[1]]
        return None

    def oblige(self, st, cond, what, exact=True):
        ok = st.facts.entails(cond)
        fr = st.frames[-1] if st.frames else None
        span = fr.body["blocks"][fr.bb]["sp"] if fr else ""
        self.obligations.append((ok, what, self.user_span(st), tuple(f.body["path"] for f in st.frames), show_cond(cond), st if not ok else None))
        return ok

    def user_span(self, st):
        for f in reversed(st.frames):
            if f.body.get("local"):
                return f.body["blocks"][f.bb]["sp"]
        return st.frames[-1].body["blocks"][st.frames[-1].bb]["sp"] if st.frames else ""

    def check_range(self, st, region, off, n, what):
        size = self.region_size(st, region)
        if size is None:
            return
        self.oblige(st, c_and(c_ge(off), c_ge(size - off - n)), what)

    def read_elem(self, st, region, off, unit, tid=None):
        t = tid if tid is not None else unit
        n = self.stride(t, unit)
        if n > 1 or (self.tk(t) == "array" and self.strip_unit(t) != self.strip_unit(unit)):
            if self.tk(t) == "array":
                return Arr(t, [self.read_elem(st, region, off + i, unit) for i in range(n)])
            bs = [self.read_elem(st, region, off + i, unit) for i in range(n)]
            return self.from_le(st, bs, t)
        k = region[0]
        self.check_range(st, region, off, 1, "element access inside the region")
        if k == "sym":
            v = self.sym_elem(region, off, unit)
            if self.on_byte is not None:
                self.on_byte(self, st, region, off, v)
            return v
        if k == "const":
            if off.is_const() and 0 <= off.c < len(region[1]):
                return const(region[1][off.c])
            if region[1]:
                return A(("tbl", region[1], off), min(region[1]), max(region[1]))
            return A(("byte", region, off), 0, 255)
        if k == "arr":
            if off.is_const() and 0 <= off.c < len(region[1]):
                return region[1][off.c]
            return self.mk(("elem", region, off), unit)
        if k == "place":
            v = self.read_cell(st, region[1], region[2])
            if isinstance(v, VecV):
                return self.vec_read(st, v, off)
            if isinstance(v, (Arr, Sym)):
                return self.arr_get(st, v, off)
        raise Unsupported("read of region %s" % (region,))

    def sym_elem(self, region, off, unit):
        unit = self.strip_unit(unit)
        if unit == self.u8:
            return A(("byte", region, off), 0, 255)
        return self.mk(("elem", region, off), unit)

    def vec_read(self, st, v, off, upto=None):
        ws = v.writes if upto is None else v.writes[:upto]
        for j in range(len(ws) - 1, -1, -1):
            w = ws[j]
            if w[0] == "trunc":
                continue
            if w[0] != "w":
                return self.mk(("vold", v.init, ws[:j + 1], off), v.etid)
            _, woff, wn, data = w
            inside = c_and(c_ge(off - woff), c_ge(woff + wn - off - 1))
            if st.facts.entails(inside):
                d = off - woff
                if data[0] == "le":
                    if d.is_const():
                        return self.byte_of(data[1], d.c, data[2])
                elif data[0] == "val":
                    return data[1]
                elif data[0] == "vals":
                    if d.is_const():
                        return data[1][d.c]
                elif data[0] == "fill":
                    return data[1]
                elif data[0] == "copy":
                    r = data[1]
                    if r[0] in ("sym",):
                        return self.sym_elem(r, data[2] + d, v.etid)
                    if r[0] == "const" and (data[2] + d).is_const():
                        return const(r[1][(data[2] + d).c])
                elif data[0] == "move":
                    return self.vec_read(st, v, data[1] + d, j)
                return self.mk(("vold", v.init, ws[:j + 1], off), v.etid)
            if st.facts.entails(c_or(c_ge(woff - off - 1), c_ge(off - woff - wn))):
                continue
            return self.mk(("vold", v.init, ws[:j + 1], off), v.etid)
        if v.init is None:
            return self.mk(("vold", None, (), off), v.etid)
        if v.init[0] == "vals":
            if off.is_const() and 0 <= off.c < len(v.init[1]):
                return v.init[1][off.c]
            return self.mk(("vold", v.init, (), off), v.etid)
        return self.sym_elem(v.init, off, v.etid)

    def byte_of(self, x, i, n):
        if x.is_const():
            return const((x.c >> (8 * i)) & 0xFF)
        if n == 1:
            return x
        b = bits_of(x, 8 * n)
        if b is not None:
            return from_bits(b[8 * i:8 * i + 8] + (0,) * 0, 8)
        return A(("byteof", x, i, n), 0, 255)

    def from_le(self, st, bs, tid):
        """Integer of type tid from its little-endian bytes."""
        n = len(bs)
        t = self.T[tid]
        if t["k"] == "bool" and n == 1:
            return c_eq(bs[0] - 1)
        if t["k"] not in ("uint", "int"):
            raise Unsupported("bytes as %s" % TYNAME(tid))
        signed = t["k"] == "int"
        if all(b.is_const() for b in bs):
            return const(int.from_bytes(bytes(b.c for b in bs), "little", signed=signed))
        a0 = single_atom(bs[0])
        lo, hi = self.int_range(tid)
        ks = [ATOM_KEY[single_atom(b)] if single_atom(b) is not None else None for b in bs]
        if all(isinstance(k, tuple) for k in ks):
            if all(k[0] == "byteof" and k[1] == ks[0][1] and k[2] == i and k[3] == n for i, k in enumerate(ks)):
                x = ks[0][1]
                if st.facts.entails(c_and(c_ge(x - lo), c_ge(const(hi) - x))):
                    return x
            if all(k[0] == "byte" and k[1] == ks[0][1] and k[2] == ks[0][2] + i for i, k in enumerate(ks)):
                x = A(("le", ks[0][1], ks[0][2], n, signed), lo, hi)
                if self.le_hook is not None:
                    self.le_hook(self, st, x, ks[0][1], ks[0][2], n)
                return x
            if all(k[0] == "vold" and k[1:3] == ks[0][1:3] and k[3] == ks[0][3] + i for i, k in enumerate(ks)):
                return A(("vle", ks[0][1], ks[0][2], ks[0][3], n, signed), lo, hi)
        if not signed:
            bits = ()
            for b in bs:
                x = bits_of(b, 8)
                if x is None:
                    bits = None
                    break
                bits += x
            if bits is not None:
                return from_bits(bits, 8 * n)
        return A(("lebytes", tuple(bs), signed), lo, hi)

    def write_elem(self, st, region, off, unit, new, tid=None):
        if region[0] != "place":
            if region[0] == "sym":
                # contents of a caller's mutable slice
                raise Unsupported("write through a slice of unknown origin")
            raise Unsupported("write to region %s" % (region,))
        v = self.read_cell(st, region[1], region[2])
        if isinstance(v, (Arr, Sym)):
            self.check_range(st, region, off, 1, "element write inside the region")
            if off.is_const():
                self.write_cell(st, region[1], region[2] + (off.c,), new)
            else:
                self.write_cell(st, region[1], region[2] + (("ix", off),), new)
            return
        if isinstance(v, VecV):
            if isinstance(new, Arr) and self.strip_unit(v.etid) == self.u8 and self.tk(v.etid) != "array":
                self.vec_write(st, region, off, const(len(new.e)), self.bytes_data(st, new.e))
            else:
                self.vec_write(st, region, off, const(1), ("val", new))
            return
        raise Unsupported("write into %r" % (v,))

    def bytes_data(self, st, es):
        """Data of a write from a list of byte values."""
        es = list(es)
        n = len(es)
        ks = [ATOM_KEY[single_atom(b)] if isinstance(b, Lin) and single_atom(b) is not None else None for b in es]
        if n and all(isinstance(k, tuple) and k[0] == "byteof" and k[1] == ks[0][1] and k[2] == i and k[3] == n for i, k in enumerate(ks)):
            return ("le", ks[0][1], n)
        if n and all(isinstance(b, Lin) for b in es):
            if all(b.is_const() for b in es):
                return ("le", const(int.from_bytes(bytes(b.c for b in es), "little")), n)
        return ("vals", tuple(es))

    def vec_write(self, st, region, off, n, data, grow=False):
        v = self.read_cell(st, region[1], region[2])
        if isinstance(v, Arr) and off.is_const() and data[0] in ("num", "partial-num"):
            m = len(v.e) - off.c if not n.is_const() else n.c
            self.oblige(st, c_and(c_ge(off), c_ge(const(len(v.e)) - off - n)), "write inside the array")
            e = list(v.e)
            for j in range(min(m, 18)):
                e[off.c + j] = A(("numbyte" if data[0] == "num" else "partbyte", data[1], j), 0, 255)
            self.write_cell(st, region[1], region[2], Arr(v.tid, e))
            return
        if not isinstance(v, VecV):
            raise Unsupported("write into %r" % (v,))
        if not grow:
            lim = v.cap if v.cap is not None else v.len
            self.oblige(st, c_and(c_ge(off), c_or(c_ge(v.len - off - n), c_ge(lim - off - n))), "write inside the vector")
        if n.is_const() and n.c == 0:
            return
        self.write_cell(st, region[1], region[2], v.with_(writes=v.writes + (("w", off, n, data),)))

    # ----------------------------------------------------------- places
    def loc(self, st, fr, place):
        """('v', cell, path, tid) or ('s', Sl)"""
        local = place[0]
        cell, path = (fr.fid, local), ()
        tid = fr.body["locals"][local]
        sl = None
        var = None
        for p in place[1:]:
            if p == "*":
                v = self.read_cell(st, cell, path, tid) if sl is None else None
                ptid = tid
                v = self.as_ptr(st, v, ptid)
                t = self.T[ptid]
                if t["k"] in ("ref", "ptr"):
                    tid = t["e"]
                elif t["k"] == "adt" and t["args"]:
                    tid = t["args"][0]
                if isinstance(v, Ptr):
                    cell, path = v.cell, v.path
                elif isinstance(v, Sl):
                    sl = v
                    cell = None
                else:
                    raise Unsupported("dereference of %r" % (v,))
                continue
            k = p[0]
            if k == "f":
                if sl is not None:
                    tid = p[2]
                    continue
                path = path + ((p[1],) if var is None else ((var, p[1]),))
                var = None
                tid = p[2]
            elif k == "d":
                t = self.T[tid]
                var = p[1] if t["k"] == "adt" and t["adt"] == "enum" else None
            elif k in ("i", "c"):
                if k == "i":
                    ix = self.read_cell(st, (fr.fid, p[1]))
                if sl is not None:
                    if k == "c":
                        ix = const(p[1]) if not p[3] else sl.len - p[1]
                    n = self.stride(sl.etid, sl.unit)
                    cell, path = ("el", sl.region, sl.off + ix.scale(n), sl.unit), ()
                    tid = sl.etid
                    sl = None
                else:
                    t = self.T[tid]
                    if k == "c":
                        ix = const(p[1]) if not p[3] else const(t["n"] - p[1])
                    path = path + ((ix.c,) if ix.is_const() else (("ix", ix),))
                    tid = t["e"]
            elif k == "s":
                if sl is None:
                    raise Unsupported("subslice of array")
                n = self.stride(sl.etid, sl.unit)
                to = sl.len - p[2] if p[3] else const(p[2])
                sl = Sl(sl.region, sl.off + p[1] * n, to - p[1], sl.etid, sl.unit)
            else:
                raise Unsupported("projection %r" % (p,))
        if sl is not None:
            return ("s", sl, tid)
        return ("v", cell, path, tid)

    def as_ptr(self, st, v, tid=None):
        n = 0
        while isinstance(v, Adt) and n < 6:
            nz = [x for x in v.f if not (isinstance(x, Adt) and not x.f)]
            if not nz:
                break
            v = nz[0]
            n += 1
        if isinstance(v, Sym):
            t = self.T[v.tid]
            if t["k"] == "adt" and t["path"] == "alloc::boxed::Box":
                return Ptr(("ref", v.term, t["args"][0]))
            if t["k"] == "adt" and t["adt"] == "struct":
                return self.as_ptr(st, self.expand(v))
        return v

    def read_place(self, st, fr, place):
        l = self.loc(st, fr, place)
        if l[0] == "s":
            raise Unsupported("by-value use of an unsized place")
        return self.read_cell(st, l[1], l[2], l[3])

    def write_place(self, st, fr, place, v):
        l = self.loc(st, fr, place)
        if l[0] == "s":
            raise Unsupported("write to an unsized place")
        self.write_cell(st, l[1], l[2], v, l[3])

    # --------------------------------------------------------- constants
    def const_value(self, c, tid):
        if not isinstance(c, dict):
            raise Unsupported("constant %r" % (c,))
        if "int" in c:
            v = c["int"]
            t = self.T[tid]
            if t["k"] == "bool":
                return bool(v)
            if t["k"] == "float":
                return Sym(("float", v), tid)
            return const(int(v))
        if "str" in c:
            b = bytes(c["str"])
            return Sl(("const", b), ZERO, const(len(b)), self.u8)
        if "slice" in c:
            e = c.get("e")
            if e is None:
                t = self.T[tid]
                e = self.unsized_elem(t["e"])
            es = [self.const_value(x, e) for x in c["slice"]]
            if self.strip_unit(e) == self.u8:
                return Sl(("const", bytes(x.c for x in es)), ZERO, const(len(es)), e)
            return Sl(("arr", tuple(es)), ZERO, const(len(es)), e)
        if "fndef" in c:
            return FnV(c["fndef"])
        if "fn" in c or "zst" in c:
            return self.zst(tid)
        if "ref" in c:
            if isinstance(c["ref"], dict) and "static" in c["ref"] and self.tk(c["e"]) not in ("ref", "ptr"):
                return self.const_value(c["ref"], tid)
            inner = self.const_value(c["ref"], c["e"])
            return Ptr(self.konst_cell(inner))
        if "array" in c:
            return Arr(tid, [self.const_value(x, c["e"]) for x in c["array"]])
        if "agg" in c:
            t = self.T[tid]
            if t["k"] == "array":
                return Arr(tid, [self.const_value(x["v"], x["t"]) for x in c["agg"]])
            if self.is_vec(tid):
                return VecV(t["args"][0], ZERO, ZERO, None)
            return Adt(tid, c["variant"], [self.const_value(x["v"], x["t"]) for x in c["agg"]])
        if "static" in c:
            s = self.F["statics"].get(c["static"])
            if s is None:
                return Ptr(("ref", ("static", c["static"]), self.T[tid].get("e", tid)))
            return Ptr(self.konst_cell(self.const_value(s["v"], s["t"])))
        if "cparam" in c:
            return self.mk(("cparam", c["cparam"]), tid)
        if "addr" in c:
            return self.mk(("addr", c["addr"]), tid)
        return self.mk(("kopaque", str(c)), tid)

    def konst_cell(self, v):
        n = self.konst_n.get(v)
        if n is None:
            # the same number in every analysis
            n = int.from_bytes(hashlib.sha256(("%r %r" % (getattr(v, "tid", None), v)).encode()).digest()[:6], "big")
            while n in self.konst:
                n += 1
            self.konst_n[v] = n
            self.konst[n] = v
        return ("konst", n)

    def zst(self, tid):
        t = self.T[tid]
        if t["k"] == "tuple" and not t["fields"]:
            return Adt(tid, 0, [])
        if t["k"] == "adt" and t["adt"] == "struct":
            return Adt(tid, 0, [self.zst(f) for f in self.fields(tid)])
        if t["k"] == "closure":
            return Adt(tid, 0, [self.zst(f) for f in t["fields"]])
        return Sym(("zst", tid), tid)

    def operand(self, st, fr, o):
        if "c" in o:
            return self.read_place(st, fr, o["c"])
        if "m" in o:
            return self.read_place(st, fr, o["m"])
        if "k" in o:
            return self.const_value(o["k"]["v"], o["k"]["t"])
        if "rc" in o:
            return False
        raise Unsupported("operand %r" % (o,))

    def operand_tid(self, st, fr, o):
        if "k" in o:
            return o["k"]["t"]
        return self.place_tid(fr, o.get("c") or o.get("m"))

    def place_tid(self, fr, p):
        tid = fr.body["locals"][p[0]]
        for e in p[1:]:
            t = self.T[tid]
            if e == "*":
                tid = t["e"] if t["k"] in ("ref", "ptr") else t["args"][0]
            elif e[0] == "f":
                tid = e[2]
            elif e[0] in ("i", "c"):
                tid = t["e"]
        return tid

    # ---------------------------------------------------------- rvalues
    def in_range(self, st, l, tid):
        lo, hi = self.int_range(tid)
        return st.facts.entails(c_and(c_ge(l - lo), c_ge(const(hi) - l)))

    def wrap(self, st, l, tid):
        """l reduced to the range of the type."""
        if self.in_range(st, l, tid):
            return l
        lo, hi = self.int_range(tid)
        b = bits_of(l, 128) if st.facts.entails(c_ge(l)) else None
        w = self.T[tid].get("w", 64)
        if b is not None and self.tk(tid) == "uint":
            return from_bits(b[:w], w)
        return A(("wrap", l, TYNAME(tid)), lo, hi)

    def rvalue(self, st, fr, r, dtid):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "reborrow", "rawptr"):
            l = self.loc(st, fr, r[-1])
            if l[0] == "s":
                return l[1]
            return Ptr(l[1], l[2])
        if k == "cast":
            return self.cast(st, fr, r[1], self.operand(st, fr, r[2]), self.operand_tid(st, fr, r[2]), r[3])
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), self.operand_tid(st, fr, r[2]), dtid, self.operand_tid(st, fr, r[3]))
        if k == "gadd":      # exact addition of client programs' counters
            return self.operand(st, fr, r[1]) + self.operand(st, fr, r[2])
        if k == "fresh":     # an arbitrary value of a client program
            self.nfresh = getattr(self, "nfresh", 0) + 1
            return self.mk(("any", r[1], self.nfresh), dtid)
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if is_cond(v):
                    return c_not(v)
                if isinstance(v, Lin):
                    lo, hi = self.int_range(dtid)
                    if self.tk(dtid) == "uint":
                        return const(hi) - v
                    return -v - 1
            if r[1] == "Neg" and isinstance(v, Lin):
                return self.wrap(st, -v, dtid)
            if r[1] == "PtrMetadata":
                v = self.as_ptr(st, v)
                if isinstance(v, Sl):
                    return v.len
                if isinstance(v, Ptr):
                    return self.zst(dtid)
            return self.mk(("un", r[1], v), dtid)
        if k == "discr":
            l = self.loc(st, fr, r[1])
            v = self.read_cell(st, l[1], l[2], l[3])
            if v is UNDEF and self.T[l[3]].get("size") == 0 and self.T[l[3]].get("variants"):
                return const(self.sign(self.T[l[3]]["variants"][0]["d"], dtid))
            return self.discr(st, v, dtid, l[3])
        if k == "agg":
            vs = [self.operand(st, fr, o) for o in r[2]]
            kind = r[1][0]
            if kind == "array":
                return Arr(dtid, vs)
            if kind == "tuple":
                return Adt(dtid, 0, vs)
            if kind == "adt":
                t = self.T[r[1][1]]
                if t["adt"] == "union":
                    return vs[0]
                if self.is_vec(dtid) and len(vs) == 2 and vs[1] == ZERO and isinstance(vs[0], Adt):
                    return VecV(t["args"][0], ZERO, ZERO, None)
                if self.on_adt is not None:
                    self.on_adt(self, st, dtid, vs)
                return Adt(dtid, r[1][2], vs)
            if kind == "closure":
                return Adt(r[1][1], 0, vs)
            if kind == "rawptr":
                p = vs[0]
                if isinstance(vs[1], Lin):
                    return self.slice_from(st, p, vs[1], dtid)
                return p
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            if r[2] is None or r[2] > 4096:
                return Sym(("repeat", v), dtid)
            return Arr(dtid, [v] * r[2])
        raise Unsupported("rvalue %s" % (r[:2],))

    def slice_from(self, st, p, ln, dtid):
        e = self.unsized_elem(self.T[dtid]["e"])
        p = self.as_ptr(st, p)
        if isinstance(p, Ptr):
            if p.cell[0] == "el" and not p.path:
                n = self.stride(e, p.cell[3])
                return Sl(p.cell[1], p.cell[2], ln, e, p.cell[3])
            if ln.is_const() and ln.c == 1:
                v = self.read_cell(st, p.cell, p.path)
                return Sl(("single", p.cell, p.path), ZERO, ln, e)
            if ln.is_const() and ln.c == 0:
                return Sl(("const", b""), ZERO, ZERO, e)
            if p.cell[0] == "ref" and not p.path:
                return Sl(("raw", p.cell[1]), ZERO, ln, e)
        if isinstance(p, Sl):
            return Sl(p.region, p.off, ln, e, p.unit)
        if isinstance(p, Sym) or (isinstance(p, Ptr)):
            return Sl(("raw", p), ZERO, ln, e)
        raise Unsupported("slice from %r" % (p,))

    def discr(self, st, v, dtid, etid):
        if isinstance(v, Adt):
            t = self.T[v.tid]
            d = t["variants"][v.var]["d"] if t["k"] == "adt" else 0
            return const(self.sign(d, dtid))
        if isinstance(v, Sym):
            t = self.T[v.tid]
            ds = sorted(self.sign(x["d"], dtid) for x in t.get("variants", []))
            if not ds:
                return A(("discr", v.term), *self.int_range(dtid))
            a = atom(("discr", v.term), ds[0], ds[-1])
            if ds != list(range(ds[0], ds[-1] + 1)) and a not in st.facts.doms:
                d = dict(st.facts.doms)
                d[a] = frozenset(ds)
                st.facts = Facts(st.facts.ges, st.facts.eqs, st.facts.nes, d, st.facts.ors)
            return lin_atom(a)
        if isinstance(v, Lin):
            return v
        raise Unsupported("discriminant of %r" % (v,))

    def sign(self, d, tid):
        t = self.T[tid]
        if t["k"] == "int":
            w = t["w"]
            d &= (1 << w) - 1
            if d >= 1 << (w - 1):
                d -= 1 << w
        return d

    def enum_from_int(self, st, v, tid):
        t = self.T[tid]
        for i, x in enumerate(t["variants"]):
            if v.is_const() and x["d"] & 0xFF == v.c & 0xFF:
                return Adt(tid, i, [])
        raise Unsupported("integer as %s" % TYNAME(tid))

    def cast(self, st, fr, kind, v, ftid, ttid):
        ft, tt = self.T[ftid], self.T[ttid]
        if kind == "IntToInt":
            if is_cond(v):
                return cond_lin(v)
            if isinstance(v, (Adt, Sym)):
                v = self.discr(st, v, ttid, ftid)
            return self.wrap(st, v, ttid)
        if kind == "Transmute":
            return self.transmute(st, v, ftid, ttid)
        if kind.startswith("CoerceUnsize"):
            p = v
            if tt["k"] in ("ref", "ptr"):
                e = self.T[tt["e"]]
                if e["k"] == "slice" and isinstance(p, Ptr):
                    at = self.T[ft["e"]]
                    if p.cell[0] == "el" and not p.path:
                        return Sl(p.cell[1], p.cell[2], const(at["n"]), at["e"], p.cell[3])
                    return Sl(("place", p.cell, p.path), ZERO, const(at["n"]), at["e"])
            return p
        if kind.startswith("Coerce"):
            return v
        if kind == "PtrToPtr":
            if tt["k"] in ("ptr", "ref"):
                want_fat = self.unsized_elem(tt["e"])
                if isinstance(v, Sl):
                    if want_fat is None:
                        return Ptr(("el", v.region, v.off, v.unit))
                    return Sl(v.region, v.off, v.len, v.etid if self.strip_unit(want_fat) == self.strip_unit(v.etid) else want_fat, v.unit)
                return v
            return v
        if kind in ("PointerExposeProvenance", "PointerWithExposedProvenance"):
            return self.mk(("ptraddr", v), ttid)
        return self.mk(("cast", kind, v, TYNAME(ttid)), ttid)

    def unwrap1(self, v):
        while isinstance(v, Adt):
            nz = [x for x in v.f if not (isinstance(x, Adt) and not x.f)]
            if len(nz) != 1:
                return v
            v = nz[0]
        return v

    def rewrap(self, st, v, tid):
        t = self.T[tid]
        if t["k"] == "adt" and t["adt"] == "struct" and not self.is_vec(tid):
            fs = self.fields(tid)
            out = []
            used = False
            for f in fs:
                ftt = self.T[f]
                if ftt.get("size") == 0 or (ftt["k"] == "adt" and ftt["path"] == "core::marker::PhantomData"):
                    out.append(self.zst(f))
                elif not used:
                    out.append(self.rewrap(st, v, f))
                    used = True
                else:
                    raise Unsupported("transmute into %s" % TYNAME(tid))
            return Adt(tid, 0, out)
        return v

    def transmute(self, st, v, ftid, ttid):
        if ftid == ttid:
            return v
        tt = self.T[ttid]
        u = self.unwrap1(v)
        if tt["k"] in ("uint", "int") and isinstance(u, Arr) and self.strip_unit(self.T[u.tid]["e"]) == self.u8:
            return self.from_le(st, list(u.e), ttid)
        if tt["k"] == "array" and isinstance(u, Lin) and self.strip_unit(tt["e"]) == self.u8:
            return Arr(ttid, [self.byte_of(u, i, tt["n"]) for i in range(tt["n"])])
        if tt["k"] in ("ref", "ptr") and isinstance(u, (Ptr, Sl, Sym)):
            if isinstance(u, Sl):
                e = self.unsized_elem(tt["e"])
                if e is not None:
                    return u
                return Ptr(("el", u.region, u.off, u.unit))
            return u
        if tt["k"] in ("uint", "int", "char") and isinstance(u, Lin):
            return self.wrap(st, u, ttid) if tt["k"] != "char" else u
        if tt["k"] == "uint" and isinstance(u, Ptr):
            return self.mk(("ptraddr", u), ttid)
        if tt["k"] in ("uint", "int") and is_cond(u):
            return cond_lin(u)
        if tt["k"] == "bool" and isinstance(u, Lin):
            return c_eq(u - 1)
        if tt["k"] in ("uint", "int") and isinstance(u, (Adt, Sym)) and self.T[u.tid].get("adt") == "enum":
            return self.discr(st, u, ttid, u.tid)
        if tt["k"] == "adt" and tt["adt"] == "enum" and isinstance(u, Lin):
            if u.is_const():
                return self.enum_from_int(st, u, ttid)
            return Sym(("ofdiscr", u), ttid)
        if tt["k"] == "adt" and tt["adt"] == "struct" and isinstance(u, (Ptr, Sl, Lin)):
            return self.rewrap(st, u, ttid)
        if tt["k"] == "adt" and tt["adt"] == "union":
            return v
        if tt["k"] == "array" and isinstance(u, Arr):
            return Arr(ttid, u.e)
        if isinstance(v, (VecV,)):
            return v
        return self.mk(("transmute", v, TYNAME(ttid)), ttid)

    # -- arithmetic
    def binop(self, st, op, a, b, tid, dtid, btid):
        base = op
        wo = op.endswith("WithOverflow")
        un = op.endswith("Unchecked")
        if wo:
            base = op[:-12]
        if un:
            base = op[:-9]
        if op == "Offset":
            return self.ptr_offset(st, a, b, tid)
        if isinstance(a, (Adt, Sl, Ptr, Sym, FnV)) or isinstance(b, (Adt, Sl, Ptr, Sym, FnV)):
            return self.ptr_cmp(st, op, a, b, dtid)
        if is_cond(a) and is_cond(b):
            if base == "BitAnd":
                return c_and(a, b)
            if base == "BitOr":
                return c_or(a, b)
            if base in ("Eq",):
                return c_or(c_and(a, b), c_and(c_not(a), c_not(b))) if not (a is True or a is False or b is True or b is False) else (b if a is True else c_not(b) if a is False else a if b is True else c_not(a))
            if base in ("Ne", "BitXor"):
                return c_not(self.binop(st, "Eq", a, b, tid, dtid, btid))
            a, b = cond_lin(a), cond_lin(b)
        elif is_cond(a):
            a = cond_lin(a)
        elif is_cond(b):
            b = cond_lin(b)
        if base in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return {"Lt": lambda: c_ge(b - a - 1), "Le": lambda: c_ge(b - a), "Gt": lambda: c_ge(a - b - 1), "Ge": lambda: c_ge(a - b), "Eq": lambda: c_eq(a - b), "Ne": lambda: c_ne(a - b)}[base]()
        rtid = tid
        if base in ("Add", "Sub"):
            e = a + b if base == "Add" else a - b
        elif base == "Mul":
            e = self.mul(st, a, b)
        elif base in ("Div", "Rem"):
            return self.divrem(st, base, a, b, tid)
        elif base in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
            return self.bitop(st, base, a, b, tid)
        else:
            return self.mk(("bin", op, a, b), dtid)
        lo, hi = self.int_range(rtid)
        if wo:
            over = c_not(c_and(c_ge(e - lo), c_ge(const(hi) - e)))
            return Adt(dtid, 0, [e, over])
        if un:
            self.oblige(st, c_and(c_ge(e - lo), c_ge(const(hi) - e)), "unchecked arithmetic in range")
            return e
        return self.wrap(st, e, rtid)

    def mul(self, st, a, b):
        if a.is_const():
            return b.scale(a.c)
        if b.is_const():
            return a.scale(b.c)
        for x, y in ((a, b), (b, a)):
            lo, hi = st.facts.lin_lo(x), st.facts.lin_hi(x)
            if lo is not None and lo == hi:
                return y.scale(lo)
        la, ha, lb, hb = st.facts.lin_lo(a), st.facts.lin_hi(a), st.facts.lin_lo(b), st.facts.lin_hi(b)
        if None not in (la, ha, lb, hb):
            ps = [la * lb, la * hb, ha * lb, ha * hb]
            k = ("mul",) + tuple(sorted((a, b), key=lambda l: repr(l)))
            return A(k, min(ps) if True else None, max(ps))
        return A(("mul", a, b))

    def divrem(self, st, op, a, b, tid):
        lo, hi = self.int_range(tid)
        if b.is_const() and b.c > 0 and st.facts.entails(c_ge(a)):
            n = b.c
            if a.is_const():
                return const(a.c // n if op == "Div" else a.c % n)
            # exact division of a linear form
            if all(k % n == 0 for _, k in a.t):
                q = Lin(a.c // n, tuple((x, k // n) for x, k in a.t))
                return q if op == "Div" else const(a.c % n)
            ah = st.facts.lin_hi(a)
            q = A(("div", a, n), 0, ah // n if ah is not None else None, lambda s: [a - s.scale(n), s.scale(n) + (n - 1) - a])
            return q if op == "Div" else a - q.scale(n)
        if st.facts.entails(c_ge(a)) and st.facts.entails(c_ge(b - 1)):
            if op == "Div":
                return A(("divs", a, b), 0, hi, lambda s: [a - s])
            return A(("rems", a, b), 0, hi, lambda s: [b - s - 1, a - s])
        return A((op, a, b), lo, hi)

    def bitop(self, st, op, a, b, tid):
        w = self.T[tid].get("w", 64)
        lo, hi = self.int_range(tid)
        if a.is_const() and b.is_const():
            m = (1 << w) - 1
            x, y = a.c & m, b.c & m
            r = {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y, "Shl": (x << (b.c % w)) & m, "Shr": (a.c >> (b.c % w)) & m if self.tk(tid) == "int" else x >> (b.c % w)}[op]
            return const(self.sign(r, tid))
        if self.tk(tid) == "uint":
            ba = bits_of(a, w, st.facts)
            if op in ("Shl", "Shr"):
                if ba is not None and b.is_const():
                    n = b.c % w
                    r = (0,) * n + ba[:w - n] if op == "Shl" else ba[n:] + (0,) * n
                    v = from_bits(r, w)
                    self.link_bits(st, op, a, n, v)
                    return v
                if op == "Shr" and b.is_const() and st.facts.entails(c_ge(a)):
                    n, ah = 1 << (b.c % w), st.facts.lin_hi(a)
                    return A(("div", a, n), 0, ah // n if ah is not None else None, lambda s: [a - s.scale(n), s.scale(n) + (n - 1) - a])
                if op == "Shr":
                    return A((op, a, b), lo, hi, lambda s: [a - s] )
            else:
                bb = bits_of(b, w, st.facts)
                if ba is not None and bb is not None:
                    r = []
                    for x, y in zip(ba, bb):
                        if op == "BitAnd":
                            r.append(0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 else x if x == y else ("and", x, y))
                        elif op == "BitOr":
                            r.append(1 if x == 1 or y == 1 else y if x == 0 else x if y == 0 else x if x == y else ("or", x, y))
                        else:
                            r.append(y if x == 0 else x if y == 0 else ("xor", x, y) if x != y else 0)
                    v = from_bits(tuple(r), w)
                    if op == "BitAnd":
                        st.facts = st.facts.assume(c_ge(a - v)) or st.facts
                    return v
                if op == "BitAnd":
                    return A((op, a, b), 0, hi, lambda s: [a - s, b - s])
        return A((op, a, b), lo, hi)

    def link_bits(self, st, op, a, n, v):
        """Linear consequences of a shift."""
        if op == "Shr" and n:
            f = st.facts.assume(c_ge(a - v.scale(1 << n)))
            f = f and f.assume(c_ge(v.scale(1 << n) + ((1 << n) - 1) - a))
            if f:
                st.facts = f

    def ptr_offset(self, st, p, n, tid):
        p = self.as_ptr(st, p)
        pointee = self.T[tid]["e"] if self.tk(tid) in ("ptr", "ref") else None
        if isinstance(p, Ptr) and p.cell[0] == "el" and not p.path:
            k = self.stride(pointee, p.cell[3]) if pointee is not None else 1
            return Ptr(("el", p.cell[1], p.cell[2] + n.scale(k), p.cell[3]))
        if isinstance(p, Ptr) and n.is_const() and n.c == 0:
            return p
        if isinstance(p, Ptr) and not p.path and p.cell[0] != "el":
            return Ptr(("el", ("place", p.cell, p.path), n, pointee))
        raise Unsupported("offset of %r" % (p,))

    def ptr_cmp(self, st, op, a, b, dtid):
        a, b = self.as_ptr(st, a), self.as_ptr(st, b)
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.binop(st, op, a, b, self.usize, dtid, self.usize)
        if isinstance(a, Sl):
            a = Ptr(("el", a.region, a.off, a.unit))
        if isinstance(b, Sl):
            b = Ptr(("el", b.region, b.off, b.unit))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.cell[0] == "el" and b.cell[0] == "el" and a.cell[1] == b.cell[1]:
                d = a.cell[2] - b.cell[2]
                r = {"Eq": lambda: c_eq(d), "Ne": lambda: c_ne(d), "Lt": lambda: c_ge(-d - 1), "Le": lambda: c_ge(-d), "Gt": lambda: c_ge(d - 1), "Ge": lambda: c_ge(d)}.get(op)
                if r:
                    return r()
            if a == b:
                if op in ("Eq", "Le", "Ge"):
                    return True
                if op in ("Ne", "Lt", "Gt"):
                    return False
        if isinstance(a, (Adt, Sym)) and isinstance(b, (Adt, Sym)) and op in ("Eq", "Ne"):
            r = c_eq(self.discr(st, a, self.usize, a.tid) - self.discr(st, b, self.usize, b.tid))
            return r if op == "Eq" else c_not(r)
        return self.mk(("ptrcmp", op, a, b), dtid)

    # ------------------------------------------------------- control flow
    def cfg(self, key):
        """Loop heads of a body: head -> set of blocks."""
        r = self.loop_info.get(key)
        if r is not None:
            return r
        body = self.fns[key]
        bl = body["blocks"]
        succ = {}
        for i, b in enumerate(bl):
            succ[i] = self.succs(b) if b else []
        # dominators by DFS; reducible graphs
        order, seen, onstack = [], set(), set()
        back = []
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        onstack.add(0)
        while stack:
            n, it = stack[-1]
            for m in it:
                if m in onstack:
                    back.append((n, m))
                elif m not in seen:
                    seen.add(m)
                    onstack.add(m)
                    stack.append((m, iter(succ[m])))
                    break
            else:
                stack.pop()
                onstack.discard(n)
                order.append(n)
        pred = {}
        for n in seen:
            for m in succ[n]:
                pred.setdefault(m, []).append(n)
        loops = {}
        for n, h in back:
            s = loops.setdefault(h, {h})
            todo = [n]
            while todo:
                x = todo.pop()
                if x not in s:
                    s.add(x)
                    todo += pred.get(x, [])
        self.loop_info[key] = loops
        return loops

    def succs(self, b):
        t = b["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[5]]
        return []

    def liveness(self, key):
        """Live-in locals of each block; locals whose address is taken are
        treated as live."""
        r = self.live_info.get(key)
        if r is not None:
            return r
        body = self.fns[key]
        bl = body["blocks"]
        use, dfn = {}, {}
        addr = set()

        def uses_place(p, us, is_def=False):
            if len(p) > 1 or not is_def:
                us.append(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == "i":
                    us.append(e[1])

        def uses_op(o, us):
            for kk in ("c", "m"):
                if kk in o:
                    uses_place(o[kk], us)

        def rv(r, us):
            k = r[0]
            if k in ("ref", "reborrow", "rawptr"):
                p = r[-1]
                if "*" not in p[1:]:
                    addr.add(p[0])
                uses_place(p, us)
                return
            if k == "discr":
                uses_place(r[1], us)
                return
            for x in r[1:]:
                if isinstance(x, dict):
                    uses_op(x, us)
                elif isinstance(x, list):
                    for y in x:
                        if isinstance(y, dict):
                            uses_op(y, us)
        for i, b in enumerate(bl):
            if not b:
                continue
            u, d = set(), set()
            for s in b["s"]:
                us = []
                if s[0] == "=":
                    rv(s[2], us)
                    uses_place(s[1], us, True)
                    u |= set(us) - d
                    if len(s[1]) == 1:
                        d.add(s[1][0])
                elif s[0] == "dead":
                    d.add(s[1])
                elif s[0] == "setd":
                    u |= {s[1][0]} - d
                else:
                    for x in s[1:]:
                        if isinstance(x, dict):
                            uses_op(x, us)
                    u |= set(us) - d
            t = b["t"]
            us = []
            if t[0] == "switch":
                uses_op(t[1], us)
            elif t[0] == "call":
                uses_op(t[1], us)
                for a in t[2]:
                    uses_op(a, us)
                uses_place(t[3], us, True)
            elif t[0] == "assert":
                uses_op(t[1], us)
                for a in t[4]:
                    uses_op(a, us)
            elif t[0] == "drop":
                uses_place(t[1], us)
            elif t[0] == "return":
                us.append(0)
            u |= set(us) - d
            if t[0] == "call" and len(t[3]) == 1:
                pass
            use[i], dfn[i] = u, d
        live = {i: set() for i in use}
        changed = True
        while changed:
            changed = False
            for i in use:
                out = set()
                for s in self.succs(bl[i]):
                    out |= live.get(s, set())
                t = bl[i]["t"]
                if t[0] == "call" and len(t[3]) == 1:
                    out = out - {t[3][0]}
                n = use[i] | (out - dfn[i])
                if n != live[i]:
                    live[i] = n
                    changed = True
        r = (live, addr)
        self.live_info[key] = r
        return r

    def start(self, key, args, st=None, tags=()):
        st = st or State()
        body = self.body(key)
        self.push_frame(st, key, body, args, None, None, None)
        return st

    def body(self, key):
        b = self.fns.get(key)
        if b is None or "error" in b:
            raise Unsupported("no body for %s" % key)
        self.analysed.add(b["path"])
        return b

    def push_frame(self, st, key, body, args, dest, target, site):
        fid = st.nfid
        st.nfid += 1
        fr = Frame(fid, key, body, 0, dest, target, site)
        st.frames = st.frames + (fr,)
        n = body["argc"]
        if body.get("spread") is not None and len(args) == n:
            pass
        if len(args) != n:
            raise Unsupported("argument count of %s: %d for %d" % (key, len(args), n))
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a

    def set_top(self, st, bb):
        st.frames = st.frames[:-1] + (st.frames[-1].at(bb),)

    def pop_frame(self, st, value):
        fr = st.frames[-1]
        for i in range(len(fr.body["locals"])):
            st.mem.pop((fr.fid, i), None)
        st.frames = st.frames[:-1]
        if fr.dest is not None:
            caller = st.frames[-1]
            self.write_loc(st, fr.dest, value)
            if fr.target is None:
                return False
            self.set_top(st, fr.target)
        return True

    def write_loc(self, st, loc, v):
        if loc[0] == "s":
            raise Unsupported("unsized destination")
        self.write_cell(st, loc[1], loc[2], v, loc[3])

    def outcome(self, kind, st, value=None, msg=""):
        span = self.user_span(st) if st.frames else ""
        o = Outcome(kind, value, st, msg, span, tuple(f.body["path"] for f in st.frames))
        return o

    def explore(self, st, stop=None):
        """Runs to completion; returns (stopped states, outcomes)."""
        todo = [st]
        stopped, outs = [], []
        first = {id(st)}
        while todo:
            s = todo.pop()
            self.nstates += 1
            if self.nstates > self.max_states:
                raise Budget("more than %d abstract states" % self.max_states)
            if stop is not None and id(s) not in first:
                lab = stop(s)
                if lab is not None:
                    stopped.append((lab, s))
                    continue
            try:
                if s.frames:
                    fr = s.frames[-1]
                    loops = self.cfg(fr.key)
                    if fr.bb in loops and s.skip_head != (fr.fid, fr.bb):
                        nxt, o = self.run_loop(s, fr, loops[fr.bb])
                        outs += o
                        # states after the loop have not been checked by stop yet
                        todo += nxt
                        continue
                    s.skip_head = None
                r = self.step(s)
            except Unsupported as e:
                outs.append(self.outcome("unsupported", s, msg=str(e)))
                continue
            for x in r:
                if isinstance(x, Outcome):
                    outs.append(x)
                else:
                    todo.append(x)
            first = set()
        return stopped, outs

    def run(self, st):
        stopped, outs = self.explore(st)
        return outs

    # ---- one block
    def step(self, st):
        fr = st.frames[-1]
        b = fr.body["blocks"][fr.bb]
        states = [st]
        for s in b["s"]:
            nxt = []
            for x in states:
                nxt += self.split(self.stmt, x, s)
            states = nxt
        out = []
        for x in states:
            try:
                out += self.split(self.term, x, b["t"])
            except Unsupported as e:
                out.append(self.outcome("unsupported", x, msg=str(e)))
        return out

    def split(self, f, st, x):
        try:
            return f(st, st.frames[-1], x)
        except Split as e:
            out = []
            for g in e.cases:
                if g is None or g.contradictory():
                    continue
                n = st.copy()
                n.facts = g
                out += self.split(f, n, x)
            return out

    def stmt(self, st, fr, s):
        k = s[0]
        if k == "=":
            dt = self.place_tid(fr, s[1])
            r = s[2]
            if r[0] == "bin" and r[1] == "Cmp":
                return self.three_way(st, fr, s[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), dt)
            v = self.rvalue(st, fr, r, dt)
            self.write_place(st, fr, s[1], v)
        elif k == "dead":
            st.mem.pop((fr.fid, s[1]), None)
        elif k == "setd":
            l = self.loc(st, fr, s[1])
            old = self.read_cell(st, l[1], l[2])
            if isinstance(old, Adt):
                n = len(self.fields(old.tid, s[2]))
                self.write_cell(st, l[1], l[2], Adt(old.tid, s[2], (old.f + (UNDEF,) * n)[:n]))
            elif old is UNDEF:
                n = len(self.fields(l[3], s[2]))
                self.write_cell(st, l[1], l[2], Adt(l[3], s[2], (UNDEF,) * n))
            else:
                raise Unsupported("set discriminant of %r" % (old,))
        elif k == "assume":
            v = self.operand(st, fr, s[1])
            f = st.facts.assume(v)
            if f is None:
                return []
            st.facts = f
        elif k == "copynonoverlapping":
            self.models.mem_copy(self, st, self.operand(st, fr, s[1]), self.operand(st, fr, s[2]), self.operand(st, fr, s[3]), self.T[self.operand_tid(st, fr, s[1])]["e"])
        else:
            raise Unsupported("statement %s" % k)
        return [st]

    def ordering(self, tid, which):
        return Adt(tid, {-1: 0, 0: 1, 1: 2}[which], [])

    def three_way(self, st, fr, place, a, b, tid):
        out = []
        if is_cond(a):
            a = cond_lin(a)
        if is_cond(b):
            b = cond_lin(b)
        for c, w in ((c_ge(b - a - 1), -1), (c_eq(a - b), 0), (c_ge(a - b - 1), 1)):
            f = st.facts.assume(c)
            if f is not None:
                s = st.copy()
                s.facts = f
                self.write_place(s, fr, place, self.ordering(tid, w))
                out.append(s)
        return out

    def fork(self, st, c):
        """[(bool, state)] for the feasible truth values of c."""
        if c is True or c is False:
            return [(c, st)]
        ft = st.facts.assume(c)
        ff = st.facts.assume(c_not(c))
        out = []
        if ft is not None and ff is not None:
            s = st.copy()
            s.facts = ff
            st.facts = ft
            return [(True, st), (False, s)]
        if ft is not None:
            st.facts = ft
            return [(True, st)]
        if ff is not None:
            st.facts = ff
            return [(False, st)]
        return []

    def term(self, st, fr, t):
        k = t[0]
        if k == "goto":
            self.set_top(st, t[1])
            return [st]
        if k == "return":
            v = self.read_cell(st, (fr.fid, 0), (), fr.body["locals"][0])
            if v is UNDEF and self.T[fr.body["locals"][0]].get("size") == 0:
                v = self.zst(fr.body["locals"][0])
            if fr.dest is None and len(st.frames) == 1:
                o = self.outcome("ret", st, v)
                return [o]
            self.pop_frame(st, v)
            return [st]
        if k == "switch":
            v = self.operand(st, fr, t[1])
            if is_cond(v):
                out = []
                for b, s in self.fork(st, v):
                    tgt = t[3]
                    for val, bb in t[2]:
                        if bool(val) == b:
                            tgt = bb
                    self.set_top(s, tgt)
                    out.append(s)
                return out
            if isinstance(v, (Adt, Sym)):
                v = self.discr(st, v, t[4], None)
            out = []
            rest = st.facts
            seen = set()
            for val, bb in t[2]:
                val = self.sign(val, t[4])
                f = rest.assume(c_eq(v - val)) if rest is not None else None
                if f is not None:
                    s = st.copy()
                    s.facts = f
                    self.set_top(s, bb)
                    out.append(s)
                rest = rest.assume(c_ne(v - val)) if rest is not None else None
                if rest is None:
                    break
            if rest is not None and not rest.contradictory():
                st.facts = rest
                self.set_top(st, t[3])
                out.append(st)
            return out
        if k == "assert":
            c = self.operand(st, fr, t[1])
            if not t[2]:
                c = c_not(c)
            out = []
            for b, s in self.fork(st, c):
                if b:
                    self.set_top(s, t[5])
                    out.append(s)
                else:
                    out.append(self.outcome("panic", s, msg="assert " + t[3]))
            return out
        if k == "drop":
            self.set_top(st, t[2])
            return [st]
        if k == "call":
            return self.call(st, fr, t)
        if k == "unreachable":
            if st.facts.contradictory():
                return []
            # reached only through an infeasible discriminant or undefined behaviour
            self.obligations.append((False, "unreachable code is not reached", self.user_span(st), tuple(f.body["path"] for f in st.frames), "", st))
            return []
        if k == "unwind":
            return []
        raise Unsupported("terminator %s" % (t,))

    # ---------------------------------------------------------------- calls
    def call(self, st, fr, t):
        fo = t[1]
        callee = None
        if "k" in fo and isinstance(fo["k"]["v"], dict) and "fndef" in fo["k"]["v"]:
            callee = fo["k"]["v"]["fndef"]
        else:
            v = self.operand(st, fr, fo)
            if isinstance(v, FnV):
                callee = v.callee
            else:
                raise Unsupported("indirect call of %r" % (v,))
        args = [self.operand(st, fr, a) for a in t[2]]
        dest = self.loc(st, fr, t[3])
        self.callsites += 1
        return self.invoke(st, callee, args, dest, t[4], fr.body["blocks"][fr.bb]["sp"], [self.operand_tid(st, fr, a) for a in t[2]])

    def finish_call(self, st, dest, target, value):
        if target is None:
            return []
        self.write_loc(st, dest, value)
        self.set_top(st, target)
        return [st]

    def invoke(self, st, callee, args, dest, target, span, argtids):
        """Calls a function; returns successor states."""
        name = callee.get("path") or callee["decl"]
        m = self.models.lookup(self, callee, args)
        if self.cuts is not None:
            r = self.cuts(self, st, callee, args, dest, target, span)
            if r is not None:
                return r
        if m is not None:
            r = m(self, st, callee, args, dest, target)
            if r is not NotImplemented:
                return r
        key = callee.get("key")
        kind = callee["kind"]
        if key is not None and key in self.fns:
            body = self.fns[key]
            if "error" in body:
                raise Unsupported("body of %s" % key)
            if body["closure"] and callee.get("trait", "").startswith("core::ops::function::"):
                # rust-call: the argument tuple is spread
                args = self.spread(st, args)
                if len(args) > body["argc"]:
                    args = args[:body["argc"]]
                a0 = self.T[body["locals"][1]] if body["argc"] else None
                if a0 is not None and a0["k"] == "ref" and not isinstance(args[0], (Ptr, Sl)):
                    # by-value closure called through a reference body
                    c = ("tmp", st.nfid)
                    st.nfid += 1
                    st.mem[c] = args[0]
                    args[0] = Ptr(c)
            if any(f.key == key for f in st.frames) or (key in self.heads and any(f.key in self.heads[key] for f in st.frames)):
                return self.recursive(st, callee, args, dest, target, span)
            b = self.body(key)
            if body.get("spread") is not None and len(args) != body["argc"]:
                # the last parameter collects the remaining arguments
                pass
            self.push_frame(st, key, b, args, dest, target, span)
            return [st]
        return self.opaque(st, callee, args, dest, target, span)

    def spread(self, st, args):
        if len(args) == 2:
            a = args[1]
            if isinstance(a, Sym):
                a = self.expand(a) if self.tk(a.tid) != "tuple" else a
            if isinstance(a, Adt):
                return [args[0]] + list(a.f)
        return list(args)

    def recursive(self, st, callee, args, dest, target, span):
        if self.rec_model is not None:
            r = self.rec_model(self, st, callee, args, dest, target, span)
            if r is not None:
                return r
        return self.opaque(st, callee, args, dest, target, span, kind="rec")

    def opaque(self, st, callee, args, dest, target, span, kind="call"):
        name = callee.get("path") or callee["decl"]
        if "panick" in name or name.endswith("unwrap_failed") or name.endswith("_fail") or "unwrap_failed" in name or name.endswith("expect_failed") or "slice_index_fail" in name or "begin_panic" in name:
            return [self.outcome("panic", st, msg="call of " + name)]
        if name.startswith(("core::", "alloc::", "<")) and kind == "call" and callee["kind"] in ("item", "intrinsic") and callee.get("krate") in ("core", "alloc", "std"):
            self.unmodelled.setdefault(name, self.user_span(st))
        n = st.ncall
        st.ncall += 1
        dt = dest[3]
        snap = tuple(self.snapshot(st, a) for a in args)
        term = (kind, name, snap, n)
        ev = (kind, callee, tuple(args), snap, term, span, tuple(f.key for f in st.frames))
        st.emit(ev)
        # targets of mutable references may change
        for i, a in enumerate(args):
            self.havoc_mut(st, callee, i, a, term)
        if target is None:
            return [self.outcome("panic", st, msg="diverging call of " + name)]
        return self.finish_call(st, dest, target, self.mk(term, dt))

    def snapshot(self, st, v, d=0):
        """The value with references to cells replaced by their content."""
        if isinstance(v, Ptr) and d < 6:
            if v.cell[0] == "el":
                return v
            try:
                c = self.read_cell(st, v.cell, v.path)
            except Unsupported:
                return v
            if isinstance(c, Sym):
                return v if v.cell[0] == "ref" else ("&", c)
            return ("&", self.snapshot(st, c, d + 1))
        if isinstance(v, Adt) and d < 6:
            return Adt(v.tid, v.var, [self.snapshot(st, x, d + 1) for x in v.f])
        return v

    def havoc_mut(self, st, callee, i, a, term):
        ats = callee.get("sig_mut")
        if isinstance(a, Ptr) and self.is_mut_arg(st, callee, i):
            if a.cell[0] == "el":
                return
            old = self.read_cell(st, a.cell, a.path)
            tid = self.value_tid(old)
            if isinstance(old, VecV):
                ln = A(("hlen", term, i), 0, ISIZE_MAX)
                new = VecV(old.etid, ln, ln, old.init, old.writes + (("havoc", term, i),))
            elif tid is not None:
                new = self.mk(("after", term, i), tid)
            else:
                return
            self.write_cell(st, a.cell, a.path, new)

    def value_tid(self, v):
        if isinstance(v, (Adt, Sym, Arr)):
            return v.tid
        return None

    def is_mut_arg(self, st, callee, i):
        """Whether argument i is passed by mutable reference (judged by the
        caller's operand type, recorded by call())."""
        return True

    # ---------------------------------------------------------------- loops
    def run_loop(self, st, fr, blocks):
        depth = len(st.frames)
        head = fr.bb
        fid = fr.fid
        key = (fr.key, head)

        def stop(s):
            if len(s.frames) < depth:
                return "exit"
            f = s.frames[depth - 1]
            if f.fid != fid:
                return "exit"
            if len(s.frames) == depth:
                if f.bb == head:
                    return "back"
                if f.bb not in blocks:
                    return "exit"
            return None
        if key not in self.nounroll:
            r = self.unroll(st, stop, key, fid, head)
            if r is not None:
                return r
            self.nounroll.add(key)
        return self.summarise(st, fr, blocks, stop)

    def unroll(self, st, stop, key, fid, head):
        cur = [st.copy()]
        exits, outs = [], []
        saved = len(self.obligations)
        savedl = self.nloops
        k = self.unroll_k
        for i in range(k + 1):
            nxt = []
            for s in cur:
                s.skip_head = (fid, head)
                try:
                    st2, o = self.explore(s, stop)
                except Budget:
                    raise
                outs += o
                for lab, x in st2:
                    if lab == "back":
                        nxt.append(x)
                    else:
                        exits.append(x)
            if any(o.kind == "unsupported" for o in outs):
                break
            if not nxt:
                return exits, outs
            if len(nxt) > 10 or len(exits) > 60:
                break
            cur = nxt
        self.discard(saved, savedl)
        return None

    def discard(self, nobl, nloop):
        """Forgets what a discarded round recorded."""
        del self.obligations[nobl:]
        for k in [k for k in self.loops if k > nloop]:
            del self.loops[k]

    def summarise(self, st, fr, blocks, stop):
        self.loop_depth += 1
        saved = self._cur_frames
        self._cur_frames = st.frames
        try:
            return self._summarise(st, fr, blocks, stop)
        finally:
            self.loop_depth -= 1
            self._cur_frames = saved

    def _summarise(self, st, fr, blocks, stop):
        fid, head = fr.fid, fr.bb
        live, addr = self.liveness(fr.key)
        lv = live.get(head, set())
        entry = st.copy()
        for i in range(len(fr.body["locals"])):
            if i not in lv and i not in addr and (fid, i) in entry.mem:
                entry.mem.pop((fid, i))
        lid = ("loop", fr.key, head, len([e for e in st.log if e[0] == "loop"]) , tuple(f.key for f in st.frames[:-1]))
        # distinct entries of the same loop get distinct names
        n = 0
        sig = (lid, hash(tuple(sorted((repr(k), hash(v)) for k, v in entry.mem.items() if v is not UNDEF))))
        lterm = ("L", self.loop_uid(sig))
        # each summary has a number of its own: equal names occur on paths that
        # differ in their facts only
        self.nloops += 1
        uid = self.nloops
        carried = {}      # (cell) -> generalised value
        invs = None
        outs = []
        for rnd in range(40):
            h = entry.copy()
            for cell, v in carried.items():
                h.mem[cell] = v
            h.emit(("loop", lterm, uid))
            hl = len(h.log)
            base_facts = h.facts
            if invs:
                for c in invs:
                    f = h.facts.assume(c)
                    if f is not None:
                        h.facts = f
            h.skip_head = (fid, head)
            hm = dict(h.mem)
            saved = len(self.obligations)
            stopped, outs = self.explore(self.head_copy(h, fid, head), stop)
            self._cur_frames = st.frames
            backs = [s for lab, s in stopped if lab == "back"]
            exits = [s for lab, s in stopped if lab == "exit"]
            changed = False
            for s in backs:
                for i in range(len(fr.body["locals"])):
                    if i not in lv and i not in addr:
                        s.mem.pop((fid, i), None)
                keys = set(s.mem) | set(hm)
                for c in keys:
                    a, b = hm.get(c), s.mem.get(c)
                    if a == b:
                        continue
                    if c not in entry.mem and c[0] not in ("ref",):
                        continue      # initialised inside only
                    if a is None and c[0] == "ref":
                        a = self.mk(("*", c[1]), c[2])
                        if a == b:
                            continue
                    if b is None or b is UNDEF or a is UNDEF or a is None:
                        continue
                    g = self.generalise(a, b, (lterm, c), entry.mem.get(c, a))
                    if g != a:
                        carried[c] = g
                        changed = True
            if changed:
                invs = None
                self.discard(saved, uid)
                continue
            # all differences are covered by carried terms: infer the invariant
            pairs = self.carried_pairs(entry, hm, backs, carried)
            if invs is None:
                invs = self.candidates(entry, hm, backs, pairs, base_facts, carried)
                if invs:
                    self.discard(saved, uid)
                    continue
                invs = []
            keep = [c for c in invs if all(self.holds_next(c, s, pairs, j) for j, s in enumerate(backs))]
            if len(keep) != len(invs):
                invs = keep
                self.discard(saved, uid)
                continue
            break
        else:
            raise Unsupported("loop does not stabilise")
        L = Loop()
        L.id, L.fn, L.span = lterm, fr.body["path"], fr.body["blocks"][head]["sp"]
        L.inv = invs
        L.entry = entry
        L.head = h
        L.carried = [(loc, init, cur, [p[loc_i] for p in []]) for loc_i, (loc, init, cur) in enumerate([])]
        L.carried = pairs
        L.backs = [(s, s.log[hl:]) for s in backs]
        L.exits = exits
        L.panics = [o for o in outs if o.kind == "panic"]
        self.loops[uid] = L
        for c, g in carried.items():
            if c in entry.mem:
                self.seal_fills(entry.mem[c], g, [(s, s.mem.get(c)) for s in backs], exits, c, ())
        if self.after_loop is not None:
            self.after_loop(self, L, exits)
        # weak memory outside: cells created inside the loop and gone
        return exits, outs

    def head_copy(self, h, fid, head):
        s = h.copy()
        s.skip_head = (fid, head)
        return s

    def loop_uid(self, sig):
        d = self.__dict__.setdefault("_uids", {})
        if sig not in d:
            d[sig] = len(d)
        return d[sig]

    def generalise(self, a, b, term, init):
        """Least common generalisation of a (head) and b (next)."""
        if a == b:
            return a
        if isinstance(a, Lin) and isinstance(b, Lin):
            k = single_atom(a)
            if k is not None and ATOM_KEY[k] == ("lv",) + term:
                return a
            rng = self.lin_type_range(term)
            return A(("lv",) + term, *rng)
        if is_cond(a) and is_cond(b):
            return c_atom(("lv",) + term)
        if isinstance(a, Adt) and isinstance(b, Adt) and a.tid == b.tid and a.var == b.var and len(a.f) == len(b.f):
            fs = self.fields(a.tid, a.var)
            out = []
            for i, (x, y) in enumerate(zip(a.f, b.f)):
                self._gtid = fs[i] if i < len(fs) else None
                out.append(self.generalise(x, y, term + (i,), None))
            return Adt(a.tid, a.var, out)
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.e) == len(b.e):
            return Arr(a.tid, [self.generalise(x, y, term + (i,), None) for i, (x, y) in enumerate(zip(a.e, b.e))])
        if isinstance(a, Sl) and isinstance(b, Sl) and a.region == b.region and a.etid == b.etid:
            off = a.off if a.off == b.off else A(("lv",) + term + ("off",), 0, ISIZE_MAX)
            ln = a.len if a.len == b.len else A(("lv",) + term + ("len",), 0, ISIZE_MAX)
            return Sl(a.region, off, ln, a.etid, a.unit)
        if isinstance(a, Sl) and isinstance(b, Sl) and a.etid == b.etid:
            t = ("lv",) + term
            if a.region == ("sym", t):
                return a
            return Sl(("sym", t), ZERO, A(("len", t), 0, ISIZE_MAX), a.etid)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.cell[0] == "el" and b.cell[0] == "el" and a.cell[1] == b.cell[1] and a.path == b.path:
            return Ptr(("el", a.cell[1], A(("lv",) + term + ("off",), 0, ISIZE_MAX), a.cell[3]), a.path)
        if isinstance(a, VecV) and isinstance(b, VecV) and a.etid == b.etid:
            # the content at the head is that at entry plus the writes of the loop
            mark = ("loopw", term)
            if a.writes and a.writes[-1] == mark:
                ln = a.len
                if b.len != a.len and not (single_atom(a.len) is not None and ATOM_KEY[single_atom(a.len)] == ("lv",) + term + ("len",)):
                    ln = A(("lv",) + term + ("len",), 0, ISIZE_MAX)
                cap = a.cap
                if cap is not None and b.cap != cap:
                    cap = A(("lv",) + term + ("cap",), 0, ISIZE_MAX)
                if b.init != a.init:
                    return VecV(a.etid, A(("lv",) + term + ("len",), 0, ISIZE_MAX), cap if a.init == ("sym", ("lv",) + term) else None, ("sym", ("lv",) + term), (mark,))
                return VecV(a.etid, ln, cap, a.init, a.writes)
            ln = a.len if a.len == b.len else A(("lv",) + term + ("len",), 0, ISIZE_MAX)
            cap = a.cap if a.cap == b.cap else A(("lv",) + term + ("cap",), 0, ISIZE_MAX)
            if a.init != b.init:
                return VecV(a.etid, A(("lv",) + term + ("len",), 0, ISIZE_MAX), None, ("sym", ("lv",) + term), (mark,))
            if a.writes == b.writes:
                return VecV(a.etid, ln, cap, a.init, a.writes)
            return VecV(a.etid, ln, cap, a.init, a.writes + (mark,))
        tid = None
        for x in (a, b):
            tid = self.value_tid(x)
            if tid is not None:
                break
        if tid is None:
            raise Unsupported("loop-carried %r and %r" % (a, b))
        t = ("lv",) + term
        if isinstance(a, Sym) and a.term == t:
            return a
        v = self.mk(t, tid)
        return v

    def lin_type_range(self, term):
        tid = getattr(self, "_gtid", None)
        self._gtid = None
        # locals have a known type
        c = term[1]
        if len(term) == 2 and len(c) == 2 and isinstance(c[0], int):
            fr = self._frames_of(c[0])
            if fr is not None:
                tid = fr.body["locals"][c[1]]
        if tid is not None:
            r = self.int_range(tid)
            if r:
                return r
        return (None, None)

    def _frames_of(self, fid):
        for f in getattr(self, "_cur_frames", ()):
            if f.fid == fid:
                return f
        return None

    # leaves of carried values: (path, init, head, [next...])
    def seal_fills(self, init, cur, nexts, exits, c, path):
        """A loop that only appends runs of one constant leaves one run of it
        behind, from the length at entry to that at the head."""
        if isinstance(cur, (Adt, Arr)) and type(init) is type(cur):
            kids = lambda v: v.f if isinstance(v, Adt) else v.e
            k = kids(cur)
            if any(type(n) is not type(cur) or len(kids(n)) != len(k) for _, n in nexts) or len(kids(init)) != len(k):
                return
            for i, x in enumerate(k):
                self.seal_fills(kids(init)[i], x, [(s, kids(n)[i]) for s, n in nexts], exits, c, path + (i,))
            return
        if not (isinstance(cur, VecV) and isinstance(init, VecV)) or not nexts or not cur.writes or cur.writes[-1][0] != "loopw":
            return
        if cur.init != init.init or cur.writes[:-1] != init.writes or cur.etid != self.u8:
            return
        byte = None
        for s, n in nexts:
            if not isinstance(n, VecV) or n.init != cur.init or n.writes[:len(cur.writes)] != cur.writes:
                return
            end = cur.len
            for w in n.writes[len(cur.writes):]:
                if w[0] != "w":
                    return
                d = w[3]
                if d[0] == "val":
                    d = ("fill", d[1])
                elif d[0] == "le" and d[1] == ZERO:
                    d = ("fill", ZERO)
                elif d[0] == "arr" and d[1] and all(x == d[1][0] for x in d[1]):
                    d = ("fill", d[1][0])
                elif d[0] == "vals" and d[1] and all(x == d[1][0] for x in d[1]):
                    d = ("fill", d[1][0])
                if d[0] != "fill" or not (isinstance(d[1], Lin) and d[1].is_const()) or (byte is not None and d != byte):
                    return
                byte = d
                if not s.facts.entails(c_eq(w[1] - end)):
                    return
                end = end + w[2]
            if not s.facts.entails(c_eq(n.len - end)):
                return
        if byte is None:
            return
        mark = cur.writes[-1]
        run = ("w", init.len, cur.len - init.len, byte)

        def put(v, p):
            if p:
                if isinstance(v, Adt):
                    return Adt(v.tid, v.var, [put(x, p[1:]) if i == p[0] else x for i, x in enumerate(v.f)])
                if isinstance(v, Arr):
                    return Arr(v.tid, [put(x, p[1:]) if i == p[0] else x for i, x in enumerate(v.e)])
                return v
            if isinstance(v, VecV) and mark in v.writes:
                i = v.writes.index(mark)
                return v.with_(writes=v.writes[:i] + (run,) + v.writes[i + 1:])
            return v
        for s in exits:
            v = s.mem.get(c)
            if v is not None and s.facts.entails(c_ge(cur.len - init.len)):
                s.mem[c] = put(v, path)

    def carried_pairs(self, entry, hm, backs, carried):
        out = []
        for c, g in carried.items():
            init = entry.mem.get(c)
            if init is None and c[0] == "ref":
                init = self.mk(("*", c[1]), c[2])
            nexts = []
            for s in backs:
                nexts.append(s.mem.get(c, g if c[0] != "ref" else g))
            self.leaf_pairs((c,), init, g, nexts, out)
        return out

    def leaf_pairs(self, loc, init, cur, nexts, out):
        if isinstance(cur, Lin):
            if any(isinstance(n, Lin) for n in nexts) or isinstance(init, Lin):
                if isinstance(init, Lin) and all(isinstance(n, Lin) for n in nexts):
                    if single_atom(cur) is not None and (init != cur or any(n != cur for n in nexts)):
                        out.append((loc, init, cur, nexts))
            return
        if isinstance(cur, Adt):
            for i, x in enumerate(cur.f):
                ok = isinstance(init, Adt) and init.var == cur.var and all(isinstance(n, Adt) and n.var == cur.var for n in nexts)
                if ok:
                    self.leaf_pairs(loc + (i,), init.f[i], x, [n.f[i] for n in nexts], out)
            return
        if isinstance(cur, Arr):
            if isinstance(init, Arr) and all(isinstance(n, Arr) for n in nexts):
                for i, x in enumerate(cur.e):
                    self.leaf_pairs(loc + (i,), init.e[i], x, [n.e[i] for n in nexts], out)
            return
        if isinstance(cur, Sl):
            if isinstance(init, Sl) and all(isinstance(n, Sl) for n in nexts) and all(n.region == init.region for n in nexts + [cur]):
                self.leaf_pairs(loc + ("off",), init.off, cur.off, [n.off for n in nexts], out)
                self.leaf_pairs(loc + ("len",), init.len, cur.len, [n.len for n in nexts], out)
            return
        if isinstance(cur, Ptr) and cur.cell[0] == "el":
            if isinstance(init, Ptr) and init.cell[0] == "el" and all(isinstance(n, Ptr) and n.cell[0] == "el" for n in nexts):
                self.leaf_pairs(loc + ("off",), init.cell[2], cur.cell[2], [n.cell[2] for n in nexts], out)
            return
        if isinstance(cur, VecV):
            if isinstance(init, VecV) and all(isinstance(n, VecV) for n in nexts):
                self.leaf_pairs(loc + ("len",), init.len, cur.len, [n.len for n in nexts], out)
                if cur.cap is not None and init.cap is not None and all(n.cap is not None for n in nexts):
                    self.leaf_pairs(loc + ("cap",), init.cap, cur.cap, [n.cap for n in nexts], out)
            return
        if is_cond(cur) and cur not in (True, False):
            if is_cond(init) and all(is_cond(n) for n in nexts):
                cl = cond_lin(cur)
                if single_atom(cl) is not None and (init != cur):
                    out.append((loc, cond_lin(init), cl, [cond_lin(n) for n in nexts]))
            return
        out_ = None

    def subst_init(self, c, pairs):
        m = {single_atom(p[2]): p[1] for p in pairs}
        return self.subst_cond(c, m)

    def subst_cond(self, c, m):
        if c is True or c is False:
            return c
        if c[0] in ("and", "or"):
            f = c_and if c[0] == "and" else c_or
            return f(self.subst_cond(c[1], m), self.subst_cond(c[2], m))
        l = c[1].subst(m)
        return {"ge": c_ge, "eq": c_eq, "ne": c_ne}[c[0]](l)

    def holds_next(self, c, s, pairs, j):
        m = {single_atom(p[2]): p[3][j] for p in pairs}
        return s.facts.entails(self.subst_cond(c, m))

    def candidates(self, entry, hm, backs, pairs, base, carried):
        """Candidate invariants that hold on entry."""
        cands = []

        def add(c):
            if c is True or c is False or c in cands:
                return
            if entry.facts.entails(self.subst_init(c, pairs)):
                cands.append(c)
        ats = {single_atom(p[2]) for p in pairs}
        for p in pairs:
            cur, init = p[2], p[1]
            # the initial value may mention carried atoms of outer loops only
            add(c_eq(cur - init))
            add(c_ge(cur - init))
            add(c_ge(init - cur))
            r = (ATOM_LO[single_atom(cur)], ATOM_HI[single_atom(cur)])
            if r[0] is None:
                add(c_ge(cur))
        # proportional increments
        for i in range(len(pairs)):
            for j in range(i + 1, len(pairs)):
                pi, pj = pairs[i], pairs[j]
                di = [n - pi[2] for n in pi[3]]
                dj = [n - pj[2] for n in pj[3]]
                if all(d.is_const() for d in di + dj) and di:
                    # a*di == b*dj on every path
                    a = b = None
                    for x, y in zip(di, dj):
                        if x.c or y.c:
                            a, b = y.c, x.c
                            break
                    if a is not None and all(x.c * a == y.c * b for x, y in zip(di, dj)) and (a or b):
                        add(c_eq((pi[2] - pi[1]).scale(a) - (pj[2] - pj[1]).scale(b)))
                # syntactic sums such as off + len
                for s in (1, -1):
                    if di and all((x + y.scale(s)).is_const() and (x + y.scale(s)).c == 0 for x, y in zip(di, dj)):
                        add(c_eq((pi[2] - pi[1]) + (pj[2] - pj[1]).scale(s)))
                add(c_ge(pi[2] - pj[2]))
                add(c_ge(pj[2] - pi[2]))
                add(c_ge(pi[1] + pj[1] - pi[2] - pj[2]))
                add(c_ge(pi[2] + pj[2] - pi[1] - pj[1]))
        # a flag that tells the first iteration
        for b in pairs:
            k = single_atom(b[2])
            if k is None or (ATOM_LO[k], ATOM_HI[k]) != (0, 1) or not b[1].is_const() or not b[3] or not all(n.is_const() and n != b[1] for n in b[3]):
                continue
            for p in pairs:
                if p is b or not p[3]:
                    continue
                d = [n - p[2] for n in p[3]]
                if all(x.is_const() and x.c > 0 for x in d):
                    moved = c_ge(p[2] - p[1] - 1)
                elif all(x.is_const() and x.c < 0 for x in d):
                    moved = c_ge(p[1] - p[2] - 1)
                else:
                    continue
                add(c_or(c_ne(b[2] - b[1]), c_eq(p[2] - p[1])))
                add(c_or(c_eq(b[2] - b[1]), moved))
        # one carried value is the sum of two others
        if len(pairs) <= 5 and any(not (n - p[2]).is_const() for p in pairs for n in p[3]):
            for i in range(len(pairs)):
                for j in range(len(pairs)):
                    for k in range(j + 1, len(pairs)):
                        if i != j and i != k:
                            add(c_eq((pairs[i][2] - pairs[i][1]) - (pairs[j][2] - pairs[j][1]) - (pairs[k][2] - pairs[k][1])))
        # guards met in the body, relaxed
        seen = set()
        for s in backs:
            for c in s.facts.all():
                l = c[1]
                if not any(a in ats for a, _ in l.t):
                    continue
                if c in base.all():
                    continue
                if any(not self.stable_atom(a, ats, entry, hm) for a, _ in l.t):
                    continue
                ls = [l] if c[0] == "ge" else [l, -l]
                for l in ls:
                    for k in (0, 1, 2, 4):
                        if (l + k) not in seen:
                            seen.add(l + k)
                            add(c_ge(l + k))
        return cands

    def stable_atom(self, a, ats, entry, hm):
        return True
