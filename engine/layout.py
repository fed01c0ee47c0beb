"""Byte-level specifications of what encoders write."""
from terms import *
from interp import Adt, Sl, VecV, Sym, Ptr
from bits import shifted, bits_of, from_bits


class Seg:
    """A piece of an expected encoding; n is its length."""
    def __init__(self, kind, n, what, label):
        self.kind, self.n, self.what, self.label = kind, n, what, label


def b1(x, label):
    return Seg("byte", const(1), x if isinstance(x, Lin) else const(x), label)


def le(x, n, label):
    return Seg("le", const(n), x if isinstance(x, Lin) else const(x), label)


def copy(sl, label):
    return Seg("copy", sl.len, sl, label)


def num(term, label):
    return Seg("num", A(("numlen", term), 1, 18), term, label)


def varint_bytes(S, l):
    """The bytes of the prefix of length l, at most 2^28-1."""
    n = 1
    while n < 4 and not S.br(c_ge(const((1 << (7 * n)) - 1) - l)):
        n += 1
    out = []
    if l.is_const():
        for i in range(n):
            out.append(const((l.c >> (7 * i)) & 0x7f | (0x80 if i < n - 1 else 0)))
        return out
    a = single_atom(l)
    if a is not None and l == lin_atom(a):
        w = ATOM_HI[a].bit_length()
        sh = [shifted(a, 7 * i, w) for i in range(5)]
    else:
        # a sum: name it through its quotients
        sh = [l] + [A(("div", l, const(1 << (7 * i))), 0, (1 << 64)) for i in range(1, 5)]
    for i in range(n):
        if i < n - 1:
            out.append(sh[i] - sh[i + 1].scale(128) + 128)
        else:
            out.append(sh[i])
    return out


def varint(S, l, label):
    return [b1(x, label) for x in varint_bytes(S, l)]


def vec_of(E, st, v):
    """The vector and the part of it a document value stands for, or None."""
    from spec import unwrap
    v = unwrap(v)
    n = 0
    while isinstance(v, Ptr) and n < 5:
        v = unwrap(E.read_cell(st, v.cell, v.path))
        n += 1
    if isinstance(v, VecV):
        return v, ZERO, v.len
    if isinstance(v, Sl) and v.region[0] == "place":
        w = E.read_cell(st, v.region[1], v.region[2])
        if isinstance(w, VecV):
            return w, v.off, v.len
    return None


def find_write(E, facts, V, pos, n, upto=None):
    """The last write that covers [pos, pos+n) entirely, if no later one touches
    it: (kind, data, distance)."""
    ws = V.writes if upto is None else V.writes[:upto]
    for j in range(len(ws) - 1, -1, -1):
        w = ws[j]
        if w[0] == "trunc":
            continue
        if w[0] != "w":
            return None
        _, wo, wn, data = w
        if facts.entails(c_and(c_ge(pos - wo), c_ge(wo + wn - pos - n))):
            return data, pos - wo, j
        if facts.entails(c_or(c_ge(wo - pos - n), c_ge(pos - wo - wn))):
            continue
        return None
    return None


def state_with(st, facts):
    s = st.copy()
    s.facts = facts
    return s


def match_segs(E, st, facts, V, pos, segs):
    """Mismatches (label, text) of the vector's content from pos with segs, and
    the position after them."""
    out = []
    s2 = state_with(st, facts)
    for sg in segs:
        if sg.kind == "byte":
            x = E.vec_read(s2, V, pos)
            if not (isinstance(x, Lin) and facts.entails(c_eq(x - sg.what))):
                out.append((sg.label, "%s is %s instead of %r" % (sg.label, short_repr(x), sg.what)))
        elif sg.kind == "le":
            n = sg.n.c
            hit = find_write(E, facts, V, pos, sg.n)
            okd = False
            got = None
            if hit and hit[0][0] == "le" and hit[0][2] == n and facts.entails(c_eq(hit[1])):
                got = hit[0][1]
                okd = isinstance(got, Lin) and facts.entails(c_eq(got - sg.what))
            if not okd:
                try:
                    bs = [E.vec_read(s2, V, pos + i) for i in range(n)]
                    got = E.from_le(s2, bs, uint_tid(E, n))
                    okd = isinstance(got, Lin) and facts.entails(c_eq(got - sg.what))
                except Exception:
                    pass
            if not okd:
                out.append((sg.label, "%s is %s instead of %r" % (sg.label, short_repr(got), sg.what)))
        elif sg.kind in ("copy", "num"):
            if not facts.entails(c_eq(sg.n)):
                hit = find_write(E, facts, V, pos, sg.n)
                good = False
                got = hit[0] if hit else None
                if hit and sg.kind == "copy" and hit[0][0] == "copy":
                    good = hit[0][1] == sg.what.region and facts.entails(c_eq(hit[0][2] + hit[1] - sg.what.off))
                if hit and sg.kind == "num" and hit[0][0] == "num":
                    good = sg.what == hit[0][1] and facts.entails(c_eq(hit[1]))
                if not good:
                    out.append((sg.label, "%s is %s instead of %s" % (sg.label, short_repr(got), sg.what)))
        pos = pos + sg.n
    return out, pos


def uint_tid(E, n):
    return next(i for i, t in enumerate(E.T) if t and t["s"] == "u%d" % (8 * n))


def short_repr(x):
    return repr(x)[:160]


def untouched(E, facts, V, upto):
    """Whether no write or truncation since the start concerns bytes before upto."""
    for w in V.writes:
        if w[0] == "trunc":
            if not facts.entails(c_ge(w[1] - upto)):
                return False
        elif w[0] == "w":
            if not facts.entails(c_ge(w[1] - upto)):
                return False
        else:
            return False
    return True
