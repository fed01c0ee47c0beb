"""Models of library functions: growable vectors, strings, slice comparison,
compiler intrinsics and the dependencies' number codec.  Everything else of the
standard library is analysed from its own MIR."""
from terms import *
from interp import *
import interp

MAX_NUM = 18


# ------------------------------------------------------------------ helpers
def loc_of(E, st, p):
    """(cell, path) of the vector behind a reference to a Vec or String."""
    p = E.as_ptr(st, p)
    if not isinstance(p, Ptr):
        raise Unsupported("vector reference %r" % (p,))
    cell, path = p.cell, p.path
    v = E.read_cell(st, cell, path)
    n = 0
    while not isinstance(v, VecV):
        if isinstance(v, Adt) and len(v.f) >= 1 and n < 4:
            path = path + (0,)
            v = v.f[0]
        elif isinstance(v, Sym) and n < 4:
            path = path + (0,)
            v = E.sym_field(v, None, 0)
        else:
            raise Unsupported("vector behind %r" % (v,))
        n += 1
    return cell, path, v


def vec_slice(E, cell, path, v):
    return Sl(("place", cell, path), ZERO, v.len, v.etid)


def unit_value(E, st, dest):
    return E.zst(dest[3])


def variant(E, tid, name, args):
    t = E.T[tid]
    for i, v in enumerate(t["variants"]):
        if v["n"] == name:
            return Adt(tid, i, args)
    raise Unsupported("variant %s of %s" % (name, TYNAME(tid)))


def payload_tid(E, tid, name):
    for v in E.T[tid]["variants"]:
        if v["n"] == name:
            return v["f"][0]["t"]


def content(E, st, s):
    """Canonical identity of the bytes a slice denotes now."""
    r = s.region
    if r[0] == "place":
        v = E.read_cell(st, r[1], r[2])
        if isinstance(v, VecV):
            if not v.writes:
                return (v.init, s.off, s.len)
            if v.init is None and len(v.writes) == 1 and v.writes[0][0] == "w" and v.writes[0][1] == ZERO:
                d = v.writes[0][3]
                if d[0] == "copy":
                    return (d[1], d[2] + s.off, s.len)
            w = v.writes[-1]
            if w[0] == "w" and w[3][0] == "copy" and st.facts.entails(c_and(c_ge(s.off - w[1]), c_ge(w[1] + w[2] - s.off - s.len))):
                return (w[3][1], w[3][2] + s.off - w[1], s.len)
            if v.init is not None and all(w[0] == "trunc" and st.facts.entails(c_ge(w[1] - s.off - s.len)) or
                                          w[0] == "w" and st.facts.entails(c_or(c_ge(w[1] - s.off - s.len), c_ge(s.off - w[1] - w[2]))) for w in v.writes):
                return (v.init, s.off, s.len)
            return (("vec", v.init, v.writes), s.off, s.len)
        if isinstance(v, Arr):
            return (("arr", v.e), s.off, s.len)
        return (("arr", v), s.off, s.len)
    if r[0] == "const" and s.off.is_const() and s.len.is_const():
        return (("const", r[1][s.off.c:s.off.c + s.len.c]), ZERO, s.len)
    return (r, s.off, s.len)


def const_bytes(c):
    if c[0][0] == "const" and c[1].is_const() and c[2].is_const():
        return c[0][1][c[1].c:c[1].c + c[2].c]
    return None


def strcmp_atom(a, b):
    """Linear form whose sign is the lexicographic order of two contents."""
    if a == b:
        return ZERO
    x, y = const_bytes(a), const_bytes(b)
    if x is not None and y is not None:
        return const(-1 if x < y else 1 if x > y else 0)
    if repr(a) <= repr(b):
        return A(("strcmp", a, b), -1, 1)
    return -A(("strcmp", b, a), -1, 1)


def bytes_eq_cond(E, st, a, b, sa, sb):
    """Condition under which two slices have equal content."""
    if a == b:
        return True
    x, y = const_bytes(a), const_bytes(b)
    if x is not None and y is not None:
        return x == y
    for k, s, o in ((x, sb, b), (y, sa, a)):
        if k is not None and len(k) <= 16:
            c = c_eq(s.len - len(k))
            if c is False:
                return False
            if not st.facts.feasible(c):
                return False
            g = st.facts.assume(c)
            for i, ch in enumerate(k):
                saved = len(E.obligations)
                tmp = st.copy()
                tmp.facts = g
                e = E.read_elem(tmp, s.region, s.off + i, s.unit)
                del E.obligations[saved:]
                c = c_and(c, c_eq(e - ch))
            return c
    return c_and(c_eq(sa.len - sb.len), c_eq(strcmp_atom(a, b)))


def as_slice(E, st, v, depth=0):
    """The slice behind nested references."""
    v = E.as_ptr(st, v)
    while isinstance(v, Ptr) and depth < 5:
        v = E.read_cell(st, v.cell, v.path)
        if isinstance(v, VecV):
            return None
        v = E.as_ptr(st, v)
        depth += 1
    return v if isinstance(v, Sl) else None


# ------------------------------------------------------------------ vectors
def vec_new(E, st, callee, args, dest, target):
    et = E.T[dest[3]]["args"][0]
    return E.finish_call(st, dest, target, VecV(et, ZERO, ZERO, None))


def string_new(E, st, callee, args, dest, target):
    inner = E.fields(dest[3])[0]
    return E.finish_call(st, dest, target, Adt(dest[3], 0, [VecV(E.u8, ZERO, ZERO, None)]))


def vec_with_capacity(E, st, callee, args, dest, target):
    E.oblige(st, c_ge(const(4096) - args[0]), "growth is covered by a reservation")
    et = E.T[dest[3]]["args"][0]
    st.emit(("vecalloc", args[0]))
    return E.finish_call(st, dest, target, VecV(et, ZERO, args[0], None))


def vec_len(E, st, callee, args, dest, target):
    return E.finish_call(st, dest, target, loc_of(E, st, args[0])[2].len)


def vec_is_empty(E, st, callee, args, dest, target):
    return E.finish_call(st, dest, target, c_eq(loc_of(E, st, args[0])[2].len))


def vec_capacity(E, st, callee, args, dest, target):
    cell, path, v = loc_of(E, st, args[0])
    cap = cap_now(E, st, v)
    return E.finish_call(st, dest, target, cap)


def cap_now(E, st, v):
    """The actual capacity: an unknown that is at least the guaranteed one."""
    k = ("capacity", v.init, v.cap, v.len) if v.cap is not None else ("capacity", v.init, None, v.len)
    a = A(k, 0, ISIZE_MAX)
    f = st.facts.assume(c_and(c_ge(a - v.len), c_ge(a - v.cap) if v.cap is not None else True))
    if f is not None:
        st.facts = f
    return a


def vec_try_reserve(E, st, callee, args, dest, target):
    cell, path, v = loc_of(E, st, args[0])
    n = args[1]
    need = v.len + n
    ok = st.copy()
    err = st
    out = []
    f = ok.facts.assume(c_ge(const(ISIZE_MAX) - need))
    if f is not None:
        ok.facts = f
        if v.cap is None or not ok.facts.entails(c_ge(v.cap - need)):
            ok.mem = dict(ok.mem)
            E.write_cell(ok, cell, path, v.with_(cap=need))
        ok.emit(("reserve", (cell, path), v.len, n, True))
        u = E.zst(payload_tid(E, dest[3], "Ok"))
        out += E.finish_call(ok, dest, target, variant(E, dest[3], "Ok", [u]))
    # a vector already covering the request cannot fail
    if v.cap is None or not err.facts.entails(c_ge(v.cap - need)):
        k = err.ncall
        err.ncall += 1
        err.emit(("reserve", (cell, path), v.len, n, False))
        e = E.mk(("reserve-error", k), payload_tid(E, dest[3], "Err"))
        out += E.finish_call(err, dest, target, variant(E, dest[3], "Err", [e]))
    return out


def grow(E, st, v, n):
    """New guaranteed capacity after growing by n elements."""
    if n.is_const() and n.c == 0:
        return v.cap
    need = v.len + n
    covered = v.cap is not None and st.facts.entails(c_ge(v.cap - need))
    E.oblige(st, covered, "growth is covered by a reservation")
    if covered:
        return v.cap
    f = st.facts.assume(c_ge(const(ISIZE_MAX) - need))
    if f is not None:
        st.facts = f
    return need


def append(E, st, cell, path, v, n, data):
    cap = grow(E, st, v, n)
    w = v.writes
    if not (n.is_const() and n.c == 0):
        w = w + (("w", v.len, n, data),)
    E.write_cell(st, cell, path, v.with_(ln=v.len + n, cap=cap, writes=w))


def vec_with(v, **kw):
    return v.with_(**kw)


def vec_push(E, st, callee, args, dest, target):
    cell, path, v = loc_of(E, st, args[0])
    append(E, st, cell, path, v, ONE, ("val", args[1]))
    if target is None:
        return []
    if E.tk(dest[3]) in ("ref", "ptr"):
        return E.finish_call(st, dest, target, Ptr(("el", ("place", cell, path), v.len, v.etid)))
    return E.finish_call(st, dest, target, unit_value(E, st, dest))


def vec_pop(E, st, callee, args, dest, target):
    cell, path, v = loc_of(E, st, args[0])
    out = []
    for b, s in E.fork(st, c_eq(v.len)):
        if b:
            out += E.finish_call(s, dest, target, variant(E, dest[3], "None", []))
        else:
            x = E.vec_read(s, v, v.len - 1)
            E.write_cell(s, cell, path, v.with_(ln=v.len - 1, writes=v.writes + (("trunc", v.len - 1),)))
            out += E.finish_call(s, dest, target, variant(E, dest[3], "Some", [x]))
    return out


def slice_data(E, st, s):
    """Write data denoting the current content of a slice."""
    r = s.region
    if r[0] == "const":
        if s.off.is_const() and s.len.is_const():
            b = r[1][s.off.c:s.off.c + s.len.c]
            return ("le", const(int.from_bytes(b, "little")), len(b))
        return ("copy", r, s.off)
    if r[0] == "arr":
        if s.off.is_const() and s.len.is_const():
            return E.bytes_data(st, r[1][s.off.c:s.off.c + s.len.c])
    if r[0] == "single":
        return ("val", E.read_cell(st, r[1], r[2]))
    if r[0] == "place":
        v = E.read_cell(st, r[1], r[2])
        if isinstance(v, Sym) and E.tk(v.tid) == "array" and E.T[v.tid].get("n", 99) <= 64:
            t = E.T[v.tid]
            v = Arr(v.tid, [E.mk(("ix", v.term, i), t["e"]) for i in range(t["n"])])
        if isinstance(v, Arr):
            lo = st.facts.lin_lo(s.off)
            ln = st.facts.lin_lo(s.len)
            if lo is not None and lo == st.facts.lin_hi(s.off) and ln is not None and ln == st.facts.lin_hi(s.len):
                return E.bytes_data(st, v.e[lo:lo + ln])
            if lo is not None and lo == st.facts.lin_hi(s.off) and lo < len(v.e):
                # an encoded number in a local array
                a = single_atom(v.e[lo]) if isinstance(v.e[lo], Lin) else None
                k = ATOM_KEY[a] if a is not None else None
                if isinstance(k, tuple) and k[0] == "numbyte" and k[2] == 0 and s.len == A(("numlen", k[1]), 1, MAX_NUM) and \
                        len(v.e) >= lo + MAX_NUM and all(v.e[lo + j] == A(("numbyte", k[1], j), 0, 255) for j in range(MAX_NUM)):
                    return ("num", k[1])
            return ("arr", v.e, s.off)
        if isinstance(v, VecV):
            c = content(E, st, s)
            return ("copy", c[0], c[1])
    return ("copy", r, s.off)


def vec_extend_from_slice(E, st, callee, args, dest, target):
    cell, path, v = loc_of(E, st, args[0])
    s = E.as_ptr(st, args[1])
    if not isinstance(s, Sl):
        raise Unsupported("extend from %r" % (s,))
    n = s.len
    lo = st.facts.lin_lo(n)
    if lo is not None and lo == st.facts.lin_hi(n):
        n = const(lo)
        s = Sl(s.region, s.off, n, s.etid, s.unit)
    if n.is_const() and n.c == 0:
        return E.finish_call(st, dest, target, unit_value(E, st, dest))
    append(E, st, cell, path, v, n, slice_data(E, st, s))
    return E.finish_call(st, dest, target, unit_value(E, st, dest))


def vec_resize(E, st, callee, args, dest, target):
    cell, path, v = loc_of(E, st, args[0])
    out = []
    for b, s in E.fork(st, c_ge(args[1] - v.len)):
        if b:
            append(E, s, cell, path, v, args[1] - v.len, ("fill", args[2]))
        else:
            E.write_cell(s, cell, path, v.with_(ln=args[1], writes=v.writes + (("trunc", args[1]),)))
        out += E.finish_call(s, dest, target, unit_value(E, s, dest))
    return out


def vec_truncate(E, st, callee, args, dest, target):
    cell, path, v = loc_of(E, st, args[0])
    out = []
    for b, s in E.fork(st, c_ge(v.len - args[1] - 1)):
        if b:
            E.write_cell(s, cell, path, v.with_(ln=args[1], writes=v.writes + (("trunc", args[1]),)))
        out += E.finish_call(s, dest, target, unit_value(E, s, dest))
    return out


def vec_clear(E, st, callee, args, dest, target):
    cell, path, v = loc_of(E, st, args[0])
    E.write_cell(st, cell, path, v.with_(ln=ZERO, writes=v.writes + (("trunc", ZERO),)))
    return E.finish_call(st, dest, target, unit_value(E, st, dest))


def vec_set_len(E, st, callee, args, dest, target):
    cell, path, v = loc_of(E, st, args[0])
    lim = v.cap if v.cap is not None else v.len
    E.oblige(st, c_or(c_ge(v.len - args[1]), c_ge(lim - args[1])), "set_len within the capacity")
    E.write_cell(st, cell, path, v.with_(ln=args[1], writes=v.writes + (("setlen", args[1]),)))
    return E.finish_call(st, dest, target, unit_value(E, st, dest))


def vec_slice_of(E, st, callee, args, dest, target):
    cell, path, v = loc_of(E, st, args[0])
    return E.finish_call(st, dest, target, vec_slice(E, cell, path, v))


def vec_as_ptr(E, st, callee, args, dest, target):
    cell, path, v = loc_of(E, st, args[0])
    return E.finish_call(st, dest, target, Ptr(("el", ("place", cell, path), ZERO, v.etid)))


def vec_insert(E, st, callee, args, dest, target):
    cell, path, v = loc_of(E, st, args[0])
    i = args[1]
    out = []
    for b, s in E.fork(st, c_ge(v.len - i)):
        if not b:
            out.append(E.outcome("panic", s, msg="Vec::insert out of bounds"))
            continue
        cap = grow(E, s, v, ONE)
        w = v.writes + (("w", i + 1, v.len - i, ("move", i)), ("w", i, ONE, ("val", args[2])))
        E.write_cell(s, cell, path, v.with_(ln=v.len + 1, cap=cap, writes=w))
        out += E.finish_call(s, dest, target, unit_value(E, s, dest))
    return out


def clone_into(E, st, callee, args, dest, target):
    cell, path, v = loc_of(E, st, args[1])
    E.write_cell(st, cell, path, v.with_(ln=ZERO, writes=v.writes + (("trunc", ZERO),)))
    return vec_extend_from_slice(E, st, callee, [args[1], args[0]], dest, target)


def to_vec(E, st, callee, args, dest, target):
    s = E.as_ptr(st, args[0])
    if isinstance(s, Ptr):
        cell, path, v = loc_of(E, st, s)
        s = vec_slice(E, cell, path, v)
    if not isinstance(s, Sl):
        raise Unsupported("to_vec of %r" % (s,))
    E.oblige(st, c_ge(const(4096) - s.len), "growth is covered by a reservation")
    tid = dest[3]
    wrap = None
    if not E.is_vec(tid):
        wrap = tid
        tid = E.fields(tid)[0]
    v = VecV(E.T[tid]["args"][0], s.len, s.len, None, () if s.len.is_const() and s.len.c == 0 else (("w", ZERO, s.len, slice_data(E, st, s)),))
    return E.finish_call(st, dest, target, v if wrap is None else Adt(wrap, 0, [v]))


def vec_clone(E, st, callee, args, dest, target):
    return to_vec(E, st, callee, args, dest, target)


def intr_minmax(which):
    def f(E, st, callee, args, dest, target):
        a, b = args[0], args[1]
        out = []
        for t, s in E.fork(st, c_ge(b - a)):
            out += E.finish_call(s, dest, target, (a if t else b) if which == "min" else (b if t else a))
        return out
    return f


def ident(E, st, callee, args, dest, target):
    return E.finish_call(st, dest, target, args[0])


def ref_inner(E, st, callee, args, dest, target):
    """&Wrapper(inner) -> &inner"""
    p = E.as_ptr(st, args[0])
    return E.finish_call(st, dest, target, Ptr(p.cell, p.path + (0,)))


def string_slice(E, st, callee, args, dest, target):
    return vec_slice_of(E, st, callee, args, dest, target)


def string_push_str(E, st, callee, args, dest, target):
    return vec_extend_from_slice(E, st, callee, args, dest, target)


def string_push(E, st, callee, args, dest, target):
    cell, path, v = loc_of(E, st, args[0])
    c = args[1]
    if c.is_const():
        b = chr(c.c).encode()
        append(E, st, cell, path, v, const(len(b)), ("le", const(int.from_bytes(b, "little")), len(b)))
    elif (st.facts.lin_hi(c) or 1 << 30) < 128:
        append(E, st, cell, path, v, ONE, ("val", c))
    else:
        n = A(("utf8len", c), 1, 4)
        append(E, st, cell, path, v, n, ("utf8", c))
    return E.finish_call(st, dest, target, unit_value(E, st, dest))


# --------------------------------------------------------------- comparison
def cmp_eq(neg):
    def f(E, st, callee, args, dest, target):
        a, b = as_slice(E, st, args[0]), as_slice(E, st, args[1])
        if a is None or b is None or E.strip_unit(a.etid) != E.u8 or E.strip_unit(b.etid) != E.u8:
            return NotImplemented
        c = bytes_eq_cond(E, st, content(E, st, a), content(E, st, b), a, b)
        return E.finish_call(st, dest, target, c_not(c) if neg else c)
    return f


def slice_cmp(E, st, callee, args, dest, target):
    a, b = as_slice(E, st, args[0]), as_slice(E, st, args[1])
    if a is None or b is None or E.strip_unit(a.etid) != E.u8 or E.strip_unit(b.etid) != E.u8:
        return NotImplemented
    o = strcmp_atom(content(E, st, a), content(E, st, b))
    out = []
    tid = dest[3]
    for c, w in ((c_eq(o + 1), -1), (c_eq(o), 0), (c_eq(o - 1), 1)):
        if w == 0:
            c = c_and(c, c_eq(a.len - b.len))
        f = st.facts.assume(c)
        if f is None:
            continue
        s = st.copy()
        s.facts = f
        v = E.ordering(tid, w) if E.T[tid]["path"] == "core::cmp::Ordering" else None
        if v is None:
            ot = payload_tid(E, tid, "Some")
            v = variant(E, tid, "Some", [E.ordering(ot, w)])
        out += E.finish_call(s, dest, target, v)
    return out


def compare_bytes(E, st, callee, args, dest, target):
    a, b, n = E.as_ptr(st, args[0]), E.as_ptr(st, args[1]), args[2]
    ss = []
    for p in (a, b):
        if isinstance(p, Ptr) and p.cell[0] == "el":
            ss.append(Sl(p.cell[1], p.cell[2], n, E.u8))
        else:
            raise Unsupported("compare_bytes of %r" % (p,))
    x, y = content(E, st, ss[0]), content(E, st, ss[1])
    r = strcmp_atom(x, y)
    if r.is_const() or const_bytes(x) is None and const_bytes(y) is None:
        return E.finish_call(st, dest, target, r)
    # a constant is compared byte by byte
    c = bytes_eq_cond(E, st, x, y, ss[0], ss[1])
    out = []
    for k, v in ((c, ZERO), (c_not(c), r)):
        f = st.facts.assume(k)
        if f is not None and v != ZERO:
            f = f.assume(c_ne(r))
        if f is not None:
            s = st.copy()
            s.facts = f
            out += E.finish_call(s, dest, target, v)
    return out


# --------------------------------------------------------------- intrinsics
def mem_copy(E, st, src, dst, n, etid):
    src, dst = E.as_ptr(st, src), E.as_ptr(st, dst)
    if n.is_const() and n.c == 0:
        return

    def norm(p):
        if isinstance(p, Sl):
            return Ptr(("el", p.region, p.off, p.unit))
        return p
    src, dst = norm(src), norm(dst)
    lo = st.facts.lin_lo(n)
    if lo is not None and lo == st.facts.lin_hi(n):
        n = const(lo)
    if not isinstance(src, Ptr) or not isinstance(dst, Ptr):
        raise Unsupported("copy from %r to %r" % (src, dst))
    dr = None
    if dst.cell[0] == "el" and not dst.path:
        dr = dst.cell[1]
    if dr is None:
        if n == ONE:
            E.write_cell(st, dst.cell, dst.path, E.read_cell(st, src.cell, src.path))
            return
        raise Unsupported("copy to %r" % (dst,))
    if dr[0] != "place":
        raise Unsupported("copy into %s" % (dr,))
    unit = dst.cell[3]
    cnt = n.scale(E.stride(etid, unit))
    tgt = E.read_cell(st, dr[1], dr[2])
    if src.cell[0] == "el" and not src.path:
        sr, so = src.cell[1], src.cell[2]
    elif n == ONE:
        sr, so = ("single", src.cell, src.path), ZERO
    else:
        raise Unsupported("copy from %r" % (src,))
    if sr[0] != "single":
        E.check_range(st, sr, so, cnt, "copy source inside the region")
    if isinstance(tgt, VecV):
        if sr == dr:
            data = ("move", so)
        else:
            data = slice_data(E, st, Sl(sr, so, cnt, etid))
        E.vec_write(st, dr, dst.cell[2], cnt, data)
        return
    if cnt.is_const() and cnt.c <= 64:
        E.check_range(st, dr, dst.cell[2], cnt, "copy target inside the region")
        vals = [E.read_elem(st, sr, so + i, unit) if sr[0] != "single" else E.read_cell(st, sr[1], sr[2]) for i in range(cnt.c)]
        for i, x in enumerate(vals):
            E.write_elem(st, dr, dst.cell[2] + i, unit, x)
        return
    raise Unsupported("copy of %r elements into %r" % (cnt, tgt))


def intr_copy(E, st, callee, args, dest, target):
    et = None
    ta = callee.get("args") or []
    tid = next((a["t"] if isinstance(a, dict) else a for a in ta), None)
    if not isinstance(tid, int):
        raise Unsupported("copy type")
    mem_copy(E, st, args[0], args[1], args[2], tid)
    return E.finish_call(st, dest, target, unit_value(E, st, dest))


def write_bytes(E, st, callee, args, dest, target):
    p = E.as_ptr(st, args[0])
    if isinstance(p, Ptr) and p.cell[0] == "el" and p.cell[1][0] == "place":
        r = p.cell[1]
        v = E.read_cell(st, r[1], r[2])
        if isinstance(v, VecV):
            E.vec_write(st, r, p.cell[2], args[2], ("fill", args[1]))
            return E.finish_call(st, dest, target, unit_value(E, st, dest))
    raise Unsupported("write_bytes to %r" % (p,))


def ptr_offset_from_unsigned(E, st, callee, args, dest, target):
    a, b = E.as_ptr(st, args[0]), E.as_ptr(st, args[1])
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.cell[0] == "el" and b.cell[0] == "el" and a.cell[1] == b.cell[1]:
        d = a.cell[2] - b.cell[2]
        ta = callee.get("args") or []
        k = E.stride(ta[0], a.cell[3]) if ta and isinstance(ta[0], int) else 1
        if k != 1:
            d = E.divrem(st, "Div", d, const(k), E.usize)
        return E.finish_call(st, dest, target, d)
    raise Unsupported("pointer distance")


def saturating(op):
    def f(E, st, callee, args, dest, target):
        a, b = args[0], args[1]
        lo, hi = E.int_range(dest[3])
        e = a + b if op == "add" else a - b
        out = []
        for c, v in ((c_and(c_ge(e - lo), c_ge(const(hi) - e)), e), (c_ge(e - hi - 1), const(hi)), (c_ge(const(lo) - e - 1), const(lo))):
            g = st.facts.assume(c)
            if g is not None:
                s = st.copy()
                s.facts = g
                out += E.finish_call(s, dest, target, v)
        return out
    return f


def select(E, st, callee, args, dest, target):
    out = []
    for b, s in E.fork(st, args[0]):
        out += E.finish_call(s, dest, target, args[1] if b else args[2])
    return out


def bswap(E, st, callee, args, dest, target):
    from bits import bits_of, from_bits
    w = E.T[dest[3]]["w"]
    b = bits_of(args[0], w, st.facts)
    if b is None:
        return E.finish_call(st, dest, target, A(("bswap", args[0], w), *E.int_range(dest[3])))
    r = ()
    for i in reversed(range(0, w, 8)):
        r += b[i:i + 8]
    return E.finish_call(st, dest, target, from_bits(r, w))


def nop(E, st, callee, args, dest, target):
    return E.finish_call(st, dest, target, unit_value(E, st, dest))


def size_of(E, st, callee, args, dest, target):
    ta = callee.get("args") or []
    s = E.T[ta[0]].get("size") if ta and isinstance(ta[0], int) else None
    if s is None:
        return NotImplemented
    return E.finish_call(st, dest, target, const(s))


# ---------------------------------------------------------- opaque but pure
def pure(E, st, callee, args, dest, target):
    """Deterministic function of its arguments without effects."""
    name = callee.get("path") or callee["decl"]
    snap = tuple(E.snapshot(st, a) for a in args)
    tids = tuple(TYNAME(a) if isinstance(a, int) else str(a) for a in (callee.get("args") or []))
    return E.finish_call(st, dest, target, E.mk(("pure", name, tids, snap), dest[3]))


def as_ref_param(E, st, callee, args, dest, target):
    p = E.as_ptr(st, args[0])
    v = E.snapshot(st, args[0])
    n = 0
    while isinstance(v, tuple) and len(v) == 2 and n < 3:
        v = v[1]
        n += 1
    who = v.term if isinstance(v, Sym) else p
    return E.finish_call(st, dest, target, E.mk(("as_ref", TYNAME((callee.get("args") or [0])[0]), who), dest[3]))


def as_mut_param(E, st, callee, args, dest, target):
    p = E.as_ptr(st, args[0])
    return E.finish_call(st, dest, target, E.mk(("as_mut", p), dest[3]))


def compact_encode(E, st, callee, args, dest, target):
    num = E.snapshot(st, args[0])
    s = E.as_ptr(st, args[1])
    if isinstance(s, Ptr):
        s2 = E.read_cell(st, s.cell, s.path)
        s = E.as_ptr(st, s2)
    if not isinstance(s, Sl) or s.region[0] != "place":
        return NotImplemented
    size = A(("numlen", num), 1, MAX_NUM)
    out = []
    for b, x in E.fork(st, c_ge(s.len - MAX_NUM)):
        if b:
            E.vec_write(x, s.region, s.off, size, ("num", num))
            out += E.finish_call(x, dest, target, variant(E, dest[3], "Ok", [size]))
        else:
            e = E.mk(("encode-error", x.ncall), payload_tid(E, dest[3], "Err"))
            x.ncall += 1
            E.vec_write(x, s.region, s.off, s.len, ("partial-num", num))
            out += E.finish_call(x, dest, target, variant(E, dest[3], "Err", [e]))
    return out


EXACT = {
    "alloc::vec::Vec::<T>::new": vec_new,
    "alloc::string::String::new": string_new,
    "alloc::vec::Vec::<T>::with_capacity": vec_with_capacity,
    "alloc::slice::<impl [T]>::to_vec": to_vec,
    "<alloc::vec::Vec<T, A> as core::clone::Clone>::clone": vec_clone,
    "<alloc::string::String as core::clone::Clone>::clone": vec_clone,
    "<str as alloc::string::ToString>::to_string": to_vec,
    "alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned": to_vec,
    "alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned": to_vec,
    "alloc::slice::<impl alloc::borrow::ToOwned for [T]>::clone_into": clone_into,
    "<alloc::string::String as core::convert::From<&str>>::from": to_vec,
    "<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref": vec_slice_of,
    "<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut": vec_slice_of,
    "<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref": vec_slice_of,
    "<alloc::vec::Vec<T, A> as core::convert::AsMut<[T]>>::as_mut": vec_slice_of,
    "<alloc::vec::Vec<T, A> as core::convert::AsMut<alloc::vec::Vec<T, A>>>::as_mut": ident,
    "<alloc::vec::Vec<T, A> as core::borrow::Borrow<[T]>>::borrow": vec_slice_of,
    "<alloc::string::String as core::ops::deref::Deref>::deref": string_slice,
    "<alloc::string::String as core::convert::AsRef<str>>::as_ref": string_slice,
    "<alloc::string::String as core::convert::AsRef<[u8]>>::as_ref": string_slice,
    "alloc::string::String::as_str": string_slice,
    "alloc::string::String::as_bytes": string_slice,
    "alloc::string::String::len": vec_len,
    "alloc::string::String::is_empty": vec_is_empty,
    "alloc::string::String::clear": vec_clear,
    "alloc::string::String::push_str": string_push_str,
    "<alloc::string::String as core::fmt::Write>::write_str": None,
    "alloc::string::String::push": string_push,
    "alloc::string::String::truncate": vec_truncate,
    "alloc::string::String::try_reserve": vec_try_reserve,
    "alloc::string::String::as_mut_vec": ref_inner,
    "core::intrinsics::copy": intr_copy,
    "core::intrinsics::copy_nonoverlapping": intr_copy,
    "core::ptr::copy": intr_copy,
    "core::ptr::copy_nonoverlapping": intr_copy,
    "core::intrinsics::write_bytes": write_bytes,
    "core::ptr::write_bytes": write_bytes,
    "core::intrinsics::compare_bytes": compare_bytes,
    "core::intrinsics::ptr_offset_from_unsigned": ptr_offset_from_unsigned,
    "core::intrinsics::saturating_add": saturating("add"),
    "core::intrinsics::saturating_sub": saturating("sub"),
    "core::intrinsics::select_unpredictable": select,
    "core::intrinsics::bswap": bswap,
    "core::intrinsics::integer_min": intr_minmax("min"),
    "core::intrinsics::integer_max": intr_minmax("max"),
    "core::intrinsics::cold_path": nop,
    "core::intrinsics::assert_inhabited": nop,
    "core::mem::size_of": size_of,
    "core::mem::forget": nop,
    "core::convert::AsRef::as_ref": as_ref_param,
    "core::convert::AsMut::as_mut": as_mut_param,
    "decimal_rs::decimal::Decimal::compact_encode": compact_encode,
    "decimal_rs::decimal::Decimal::decode": pure,
    "<decimal_rs::decimal::Decimal as core::convert::AsRef<decimal_rs::decimal::Decimal>>::as_ref": ident,
    "<decimal_rs::decimal::Decimal as core::cmp::PartialEq>::eq": pure,
    "<decimal_rs::decimal::Decimal as core::clone::Clone>::clone": None,
    "decimal_rs::parse::<impl core::str::traits::FromStr for decimal_rs::decimal::Decimal>::from_str": pure,
    "serde_json::map::Map::<alloc::string::String, serde_json::value::Value>::len": pure,
    "core::str::converts::from_utf8": pure,
    "core::str::traits::<impl core::cmp::PartialEq for str>::eq": cmp_eq(False),
    "core::str::traits::<impl core::cmp::Ord for str>::cmp": slice_cmp,
    "core::str::traits::<impl core::cmp::PartialOrd for str>::partial_cmp": slice_cmp,
    "core::slice::cmp::<impl core::cmp::PartialEq<[U]> for [T]>::eq": cmp_eq(False),
    "core::slice::cmp::<impl core::cmp::PartialEq<[U]> for [T]>::ne": cmp_eq(True),
    "core::slice::cmp::<impl core::cmp::Ord for [T]>::cmp": slice_cmp,
    "core::slice::cmp::<impl core::cmp::PartialOrd for [T]>::partial_cmp": slice_cmp,
}

VEC = "alloc::vec::Vec::<T, A>::"
VECM = {
    "len": vec_len, "is_empty": vec_is_empty, "capacity": vec_capacity,
    "try_reserve": vec_try_reserve, "try_reserve_exact": vec_try_reserve,
    "push": vec_push, "push_mut": vec_push, "pop": vec_pop, "extend_from_slice": vec_extend_from_slice,
    "resize": vec_resize, "truncate": vec_truncate, "clear": vec_clear, "set_len": vec_set_len,
    "as_ptr": vec_as_ptr, "as_mut_ptr": vec_as_ptr, "as_slice": vec_slice_of, "as_mut_slice": vec_slice_of,
    "insert": vec_insert,
}


def decimal_clone(E, st, callee, args, dest, target):
    p = E.as_ptr(st, args[0])
    return E.finish_call(st, dest, target, E.read_cell(st, p.cell, p.path))


EXACT["<decimal_rs::decimal::Decimal as core::clone::Clone>::clone"] = decimal_clone


def range_inclusive_next(E, st, callee, args, dest, target):
    """An inclusive range with its end reached is kept as an empty one: the
    difference to the exhausted flag cannot be observed by iterating."""
    p = E.as_ptr(st, args[0])
    v = E.read_cell(st, p.cell, p.path)
    if isinstance(v, Sym):
        v = E.expand(v)
    ints = [i for i, x in enumerate(v.f) if isinstance(x, Lin)]
    conds = [x for x in v.f if is_cond(x)]
    if len(ints) != 2 or len(conds) != 1 or not st.facts.entails(c_not(conds[0])):
        raise Unsupported("inclusive range %r" % (v,))
    a, b = v.f[ints[0]], v.f[ints[1]]
    out = []
    s = st.copy()
    f = s.facts.assume(c_ge(a - b - 1))
    if f is not None and not f.contradictory():
        s.facts = f
        out += E.finish_call(s, dest, target, variant(E, dest[3], "None", []))
    f = st.facts.assume(c_ge(b - a))
    if f is not None and not f.contradictory():
        st.facts = f
        E.write_cell(st, p.cell, p.path, Adt(v.tid, v.var, [a + 1 if i == ints[0] else x for i, x in enumerate(v.f)]))
        out += E.finish_call(st, dest, target, variant(E, dest[3], "Some", [a]))
    return out


def iter_skip(E, st, callee, args, dest, target):
    """A slice iterator's first n elements are passed over at once."""
    it, n = args
    if isinstance(it, Sym):
        it = E.expand(it)
    start, end = (unwrap_ptr(E, it.f[0]), unwrap_ptr(E, it.f[1]))
    a, b = start and start.cell, end and end.cell
    if not (isinstance(n, Lin) and isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "el" and a[1] == b[1] and a[3] == b[3]):
        raise Unsupported("skip of %r" % (it,))
    _, reg, oa, etid = a
    ob = b[2]
    left = ob - oa
    sk = E.expand(E.mk(("skip", 0), dest[3]))
    out = []
    for s, cond, adv in ((st.copy(), c_ge(left - n), n), (st, c_ge(n - left - 1), left)):
        f = s.facts.assume(cond)
        if f is None or f.contradictory():
            continue
        s.facts = f
        new = Adt(it.tid, it.var, [with_ptr(it.f[0], Ptr(("el", reg, oa + adv, etid)))] + list(it.f[1:]))
        out += E.finish_call(s, dest, target, Adt(sk.tid, sk.var, [new if isinstance(x, (Adt, Sym)) else ZERO for x in sk.f]))
    return out


def vec_extend(E, st, callee, args, dest, target):
    """Extension by the elements a slice iterator still has."""
    it = args[1]
    if isinstance(it, Sl):
        return vec_extend_from_slice(E, st, callee, args, dest, target)
    n = 0
    while isinstance(it, Sym) or isinstance(it, Adt) and len(it.f) == 1:
        it = E.expand(it) if isinstance(it, Sym) else it.f[0]
        n += 1
        if n > 6:
            return NotImplemented
    if not isinstance(it, Adt) or len(it.f) < 2:
        return NotImplemented
    t = E.T[it.tid]
    if t["k"] == "adt" and t["path"].endswith("::take::Take") and isinstance(it.f[1], Lin):
        # repeat(b).take(n)
        rep = it.f[0]
        rt = E.T[rep.tid] if isinstance(rep, Adt) else None
        if rt and rt["k"] == "adt" and rt["path"].endswith("::repeat::Repeat") and isinstance(rep.f[0], Lin):
            cell, path, v = loc_of(E, st, args[0])
            append(E, st, cell, path, v, it.f[1], ("fill", rep.f[0]))
            return E.finish_call(st, dest, target, unit_value(E, st, dest))
        return NotImplemented
    start, end = unwrap_ptr(E, it.f[0]), unwrap_ptr(E, it.f[1])
    a, b = start and start.cell, end and end.cell
    if not (isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "el" and a[1] == b[1] and a[3] == b[3] and a[3] == E.u8):
        return NotImplemented
    return vec_extend_from_slice(E, st, callee, [args[0], Sl(a[1], a[2], b[2] - a[2], E.u8)], dest, target)


def unwrap_ptr(E, v):
    while isinstance(v, Adt) and len(v.f) == 1:
        v = v.f[0]
    return v if isinstance(v, Ptr) else None


def with_ptr(v, p):
    return Adt(v.tid, v.var, [with_ptr(v.f[0], p)]) if isinstance(v, Adt) else p


def lookup(E, callee, args):
    name = callee.get("path") or callee["decl"]
    f = EXACT.get(name)
    if f is not None:
        if name in ("core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut") and callee["kind"] != "unresolved":
            return None
        return f
    if name.startswith(VEC):
        f = VECM.get(name[len(VEC):])
        if f is not None:
            return f
    if name.endswith("::precondition_check"):
        return nop
    if "RangeInclusive" in name and name.endswith("::next") and "Iterator for" in name:
        return range_inclusive_next
    if name.startswith("<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<") and name.endswith("::extend"):
        return vec_extend
    if name == "core::iter::traits::iterator::Iterator::skip" and (callee.get("key") or "").startswith("<core::slice::iter::Iter<"):
        return iter_skip
    return None
