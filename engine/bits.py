"""Bit-field domain: an unsigned integer as a tuple of bits (least significant
first), each 0, 1 or (atom, index)."""
from terms import *
from terms import _ATOM_IX


MEMO = {}       # linear form -> its bits, for the results of from_bits


def shifted(a, i, n):
    """a >> i for the n-bit atom a, as an atom related linearly to a."""
    if i == 0:
        return lin_atom(a)
    if i >= n:
        return ZERO
    x = lin_atom(a)
    key = ("bits", tuple((a, j) for j in range(i, n)))
    new = key not in _ATOM_IX
    s = A(key, 0, (1 << (n - i)) - 1)
    if new:
        d = (x - s.scale(1 << i), s.scale(1 << i) + ((1 << i) - 1) - x)
        ATOM_DEFS[single_atom(s)] += d
        ATOM_DEFS[a] += d
    return s


def runs(b):
    """b as a sum of shifted contiguous fields of atoms, or None."""
    r = ZERO
    i = 0
    while i < len(b):
        x = b[i]
        if x in (0, 1):
            r = r + (x << i)
            i += 1
            continue
        if not isinstance(x[0], int):
            return None
        a, k = x
        if ATOM_LO[a] is None or ATOM_HI[a] is None or ATOM_LO[a] < 0:
            return None
        n = ATOM_HI[a].bit_length()
        j = i
        while j < len(b) and b[j] == (a, k + j - i):
            j += 1
        r = r + (shifted(a, k, n) - shifted(a, k + j - i, n).scale(1 << (j - i))).scale(1 << i)
        i = j
    return r


def bits_of(l, w, facts=None):
    if not isinstance(l, Lin):
        return None
    if l.t:
        sh = 0
        g = l
        while True:
            b = MEMO.get(g)
            if b is not None:
                b = (0,) * sh + b
                if len(b) > w:
                    if any(x != 0 for x in b[w:]):
                        return b[:w] if sh == 0 else None
                    b = b[:w]
                return b + (0,) * (w - len(b))
            if g.c % 2 or any(k % 2 for _, k in g.t):
                break
            g = Lin(g.c // 2, tuple((a, k // 2) for a, k in g.t))
            sh += 1
    if l.is_const():
        if l.c < 0:
            return None
        return tuple((l.c >> i) & 1 for i in range(w))
    if l.c != 0:
        # constant below the lowest variable bit
        if len(l.t) == 1 and l.c > 0:
            a, k = l.t[0]
            if k > 0 and (k & (k - 1)) == 0 and l.c < k:
                v = bits_of(Lin(0, l.t), w, facts)
                if v is not None:
                    return tuple(((l.c >> i) & 1) if i < k.bit_length() - 1 else v[i] for i in range(w))
        return None
    if len(l.t) != 1:
        # disjoint sum of shifted fields
        acc = [0] * w
        for a, k in l.t:
            v = bits_of(Lin(0, ((a, k),)), w, facts)
            if v is None:
                return None
            for i in range(w):
                if v[i] != 0:
                    if acc[i] != 0:
                        return None
                    acc[i] = v[i]
        return tuple(acc)
    a, k = l.t[0]
    if k <= 0 or k & (k - 1):
        return None
    sh = k.bit_length() - 1
    key = ATOM_KEY[a]
    if isinstance(key, tuple) and key[0] == "bits":
        b = key[1]
    else:
        lo = ATOM_LO[a] if facts is None else facts.lo(a)
        hi = ATOM_HI[a] if facts is None else facts.hi(a)
        if lo is None or hi is None or lo < 0:
            return None
        n = hi.bit_length()
        b = tuple((a, i) for i in range(n))
    b = (0,) * sh + b
    if len(b) > w:
        if any(x != 0 for x in b[w:]):
            return b[:w] if sh == 0 else None
        b = b[:w]
    return b + (0,) * (w - len(b))


def from_bits(b, w):
    b = tuple(b[:w])
    while b and b[-1] == 0:
        b = b[:-1]
    if all(x in (0, 1) for x in b):
        return const(sum(x << i for i, x in enumerate(b)))
    # a whole atom, possibly shifted
    sh = 0
    while b[sh] == 0:
        sh += 1
    x = b[sh]
    if isinstance(x, tuple) and isinstance(x[0], int) and x[1] == 0:
        a = x[0]
        hi = ATOM_HI[a]
        if hi is not None and ATOM_LO[a] is not None and ATOM_LO[a] >= 0 and b[sh:] == tuple((a, i) for i in range(hi.bit_length())):
            return Lin(0, ((a, 1 << sh),))
    # little-endian bytes of one region
    if len(b) % 8 == 0 and len(b) > 8 and sh == 0:
        ks = []
        for i in range(0, len(b), 8):
            y = b[i]
            if not (isinstance(y, tuple) and isinstance(y[0], int) and b[i:i + 8] == tuple((y[0], j) for j in range(8))):
                break
            k = ATOM_KEY[y[0]]
            if not (isinstance(k, tuple) and k[0] == "byte"):
                break
            ks.append(k)
        else:
            if all(k[1] == ks[0][1] and k[2] == ks[0][2] + i for i, k in enumerate(ks)) and len(ks) in (2, 4, 8):
                n = len(ks)
                return A(("le", ks[0][1], ks[0][2], n, False), 0, (1 << (8 * n)) - 1)
    r = runs(b)
    if r is not None:
        MEMO[r] = b
        return r
    hi = sum(1 << i for i, x in enumerate(b) if x != 0)
    lo = sum(1 << i for i, x in enumerate(b) if x == 1)
    return A(("bits", b), lo, hi)
