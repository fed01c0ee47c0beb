"""Canonical terms: integer linear forms over value-numbered atoms, conditions,
and the constraint domain (linear inequalities with integer tightening, decided
by variable elimination; finite value sets for small atoms)."""
from math import gcd

# --------------------------------------------------------------------- atoms
ATOM_KEY = []
ATOM_LO = []
ATOM_HI = []
ATOM_DEFS = []      # list of Lin >= 0 that hold by definition
_ATOM_IX = {}
INF = None


def atom(key, lo=None, hi=None, defs=None):
    i = _ATOM_IX.get(key)
    if i is None:
        i = len(ATOM_KEY)
        _ATOM_IX[key] = i
        ATOM_KEY.append(key)
        ATOM_LO.append(lo)
        ATOM_HI.append(hi)
        ATOM_DEFS.append(())
        if defs:
            ATOM_DEFS[i] = tuple(defs(lin_atom(i)))
    return i


class Lin:
    """c + sum(coef * atom); immutable, hashable."""
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if not isinstance(o, Lin):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            n = d.get(a, 0) + k
            if n:
                d[a] = n
            else:
                d.pop(a, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Lin(self.c * k, tuple((a, x * k) for a, x in self.t))

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        if not isinstance(o, Lin):
            return Lin(self.c - o, self.t)
        return self + o.scale(-1)

    def subst(self, m):
        """m: atom -> Lin"""
        r = Lin(self.c)
        rest = []
        hit = False
        for a, k in self.t:
            if a in m:
                r = r + m[a].scale(k)
                hit = True
            else:
                rest.append((a, k))
        if not hit:
            return self
        return r + Lin(0, tuple(rest))

    def __repr__(self):
        return show_lin(self)


ZERO = Lin(0)
ONE = Lin(1)


def lin_atom(i):
    return Lin(0, ((i, 1),))


def const(n):
    return Lin(n)


def A(key, lo=None, hi=None, defs=None):
    return lin_atom(atom(key, lo, hi, defs))


def typed(key, lo, hi):
    """The atom of an integer of a type with these bounds: entry points that are analysed in one
    process use the same names for arguments of different types."""
    i = _ATOM_IX.get(key)
    if i is not None and (ATOM_LO[i], ATOM_HI[i]) != (lo, hi):
        return A(("as", key, lo, hi), lo, hi)
    return A(key, lo, hi)


def single_atom(l):
    """The atom if l is exactly one atom."""
    if l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1:
        return l.t[0][0]
    return None


def show_key(k, d=0):
    if isinstance(k, tuple):
        if d > 6:
            return "…"
        return "%s(%s)" % (k[0], ",".join(show_key(x, d + 1) for x in k[1:])) if k and isinstance(k[0], str) else "(" + ",".join(show_key(x, d + 1) for x in k) + ")"
    if isinstance(k, Lin):
        return show_lin(k, d)
    return str(k)


def show_lin(l, d=0):
    s = []
    for a, k in l.t:
        n = show_key(ATOM_KEY[a], d + 1)
        s.append(n if k == 1 else "%d*%s" % (k, n))
    if l.c or not s:
        s.append(str(l.c))
    return "+".join(s)


# ---------------------------------------------------------------- conditions
# True, False, ('ge', L), ('eq', L), ('ne', L), ('and', a, b), ('or', a, b)
def _norm_eq(l):
    if l.t and l.t[0][1] < 0:
        return -l
    return l


def c_ge(l):
    if not l.t:
        return l.c >= 0
    return ("ge", l)


def c_eq(l):
    if not l.t:
        return l.c == 0
    g = 0
    for _, k in l.t:
        g = gcd(g, k)
    if l.c % g:
        return False
    return ("eq", _norm_eq(l))


def c_ne(l):
    r = c_eq(l)
    if r is True or r is False:
        return not r
    return ("ne", r[1])


def c_not(c):
    if c is True or c is False:
        return not c
    k = c[0]
    if k == "ge":
        return c_ge(-c[1] - 1)
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    if k == "and":
        return c_or(c_not(c[1]), c_not(c[2]))
    if k == "or":
        return c_and(c_not(c[1]), c_not(c[2]))
    raise ValueError(c)


def c_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if a == b:
        return a
    return ("and", a, b)


def c_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    if a == b:
        return a
    return ("or", a, b)


def c_atom(key):
    """An opaque boolean."""
    return ("eq", A(("bool", key), 0, 1) - 1)


def cond_lin(c):
    """A condition as a 0/1 integer."""
    if c is True:
        return const(1)
    if c is False:
        return const(0)
    if c[0] == "eq":
        l = c[1]
        # an opaque boolean atom
        if len(l.t) == 1 and l.t[0][1] == 1 and l.c == -1 and ATOM_LO[l.t[0][0]] == 0 and ATOM_HI[l.t[0][0]] == 1:
            return l + 1
    if c[0] == "ne":
        l = c[1]
        if len(l.t) == 1 and l.t[0][1] == 1 and l.c == -1 and ATOM_LO[l.t[0][0]] == 0 and ATOM_HI[l.t[0][0]] == 1:
            return -l
        if len(l.t) == 1 and l.t[0][1] == 1 and l.c == 0 and ATOM_LO[l.t[0][0]] == 0 and ATOM_HI[l.t[0][0]] == 1:
            return l
    if c[0] == "eq" and len(c[1].t) == 1 and c[1].t[0][1] == 1 and c[1].c == 0 and ATOM_LO[c[1].t[0][0]] == 0 and ATOM_HI[c[1].t[0][0]] == 1:
        return const(1) - c[1]
    return A(("b2i", c), 0, 1)


def cond_atoms(c, out):
    if c is True or c is False:
        return
    if c[0] in ("and", "or"):
        cond_atoms(c[1], out)
        cond_atoms(c[2], out)
    else:
        for a, _ in c[1].t:
            out.add(a)


def show_cond(c):
    if c is True or c is False:
        return str(c)
    if c[0] in ("and", "or"):
        return "(%s %s %s)" % (show_cond(c[1]), c[0], show_cond(c[2]))
    return "%s %s 0" % (show_lin(c[1]), {"ge": ">=", "eq": "==", "ne": "!="}[c[0]])


# -------------------------------------------------------------------- facts
STATS = {"queries": 0, "elim": 0, "giveup": 0}


def _tighten(c, t):
    """Integer tightening of c + t >= 0."""
    g = 0
    for _, k in t:
        g = gcd(g, k)
        if g == 1:
            return c, t
    if g > 1:
        return c // g, tuple((a, k // g) for a, k in t)
    return c, t


def propagate(ges, eqs, lo, hi, rounds=4):
    """Narrows the integer bounds lo and hi of the atoms; True if some atom has
    none left."""
    if _native is not None:
        rows = _native.rows(ges, eqs)
        if not rows:
            return False
    else:
        rows = [l for l in ges if l.t and any(k not in (1, -1) for _, k in l.t)]
        for l in eqs:
            if any(k not in (1, -1) for _, k in l.t):
                rows.append(l)
                rows.append(-l)
        if not rows:
            return False
        rows += [l for l in ges if len(l.t) == 1]
    if _native is not None:
        r = _native.propagate(rows, lo, hi, rounds)
        if r is not None:
            return r
    return py_propagate(rows, lo, hi, rounds)


def py_propagate(rows, lo, hi, rounds):
    for _ in range(rounds):
        changed = False
        for l in rows:
            # for each atom: k*a >= -(c + the most the others can be)
            up = l.c
            free = None
            for a, k in l.t:
                b = hi.get(a) if k > 0 else lo.get(a)
                if b is None:
                    if free is not None:
                        up = None
                        break
                    free = a
                else:
                    up += k * b
            if up is None:
                continue
            for a, k in l.t:
                if free is not None and a != free:
                    continue
                b = hi.get(a) if k > 0 else lo.get(a)
                rest = up if free is not None else up - k * b
                if k > 0:
                    n = -(rest // k)
                    o = lo.get(a)
                    if o is None or n > o:
                        lo[a] = n
                        changed = True
                else:
                    n = rest // (-k)
                    o = hi.get(a)
                    if o is None or n < o:
                        hi[a] = n
                        changed = True
                if lo.get(a) is not None and hi.get(a) is not None and lo[a] > hi[a]:
                    return True
        if not changed:
            break
    return False


import native
_native = native.load()


def infeasible(ges, eqs, lo, hi, cap=1500):
    if _native is not None:
        r = _native.infeasible(ges, eqs, lo, hi, cap)
        if r is not None:
            return r
        STATS["fallback"] = STATS.get("fallback", 0) + 1
    return py_infeasible(ges, eqs, lo, hi, cap)


def py_infeasible(ges, eqs, lo, hi, cap=1500):
    """Is the conjunction of ges >= 0, eqs == 0 and the bounds empty over the
    integers? Sound: True only if it is empty."""
    ges = [dict(l.t) | {None: l.c} for l in ges]
    eqs = [dict(l.t) | {None: l.c} for l in eqs]
    atoms = set()
    for d in ges + eqs:
        atoms.update(k for k in d if k is not None)
    bounds = []
    for a in atoms:
        l, h = lo.get(a), hi.get(a)
        if l is not None and h is not None and l == h:
            eqs.append({a: 1, None: -l})
            continue
        if l is not None:
            bounds.append({a: 1, None: -l})
        if h is not None:
            bounds.append({a: -1, None: h})
    ges += bounds
    # eliminate equalities
    while eqs:
        e = eqs.pop()
        e = {k: v for k, v in e.items() if v or k is None}
        vs = [k for k in e if k is not None]
        if not vs:
            if e.get(None, 0) != 0:
                return True
            continue
        g = 0
        for k in vs:
            g = gcd(g, e[k])
        if e.get(None, 0) % g:
            return True
        if g > 1:
            e = {k: v // g for k, v in e.items()}
        p = None
        for k in vs:
            if abs(e[k]) == 1:
                p = k
                break
        if p is None:
            p = min(vs, key=lambda k: abs(e[k]))
        ek = e[p]

        def sub(d, isge):
            x = d.get(p, 0)
            if not x:
                return d
            # d*|ek| - sign(ek)*x*e eliminates p
            m = abs(ek)
            s = x if ek > 0 else -x
            r = {}
            for k, v in d.items():
                r[k] = v * m
            for k, v in e.items():
                r[k] = r.get(k, 0) - s * v
            return {k: v for k, v in r.items() if v or k is None}
        ges = [sub(d, True) for d in ges]
        eqs = [sub(d, False) for d in eqs]
    # fourier-motzkin
    cs = {}

    def add(store, d):
        c = d.get(None, 0)
        t = tuple(sorted((k, v) for k, v in d.items() if k is not None and v))
        if not t:
            return c < 0
        c, t = _tighten(c, t)
        o = store.get(t)
        if o is None or c < o:
            store[t] = c
            # opposite constraint contradiction
            n = tuple((k, -v) for k, v in t)
            if n in store and store[n] + c < 0:
                return True
        return False
    for d in ges:
        if add(cs, d):
            return True
    while cs:
        pos, neg = {}, {}
        for t in cs:
            for k, v in t:
                if v > 0:
                    pos[k] = pos.get(k, 0) + 1
                else:
                    neg[k] = neg.get(k, 0) + 1
        best, bc = None, None
        for k in set(pos) | set(neg):
            c = pos.get(k, 0) * neg.get(k, 0) - pos.get(k, 0) - neg.get(k, 0)
            if bc is None or c < bc:
                best, bc = k, c
        P, N, rest = [], [], {}
        for t, c in cs.items():
            d = dict(t)
            v = d.get(best)
            if v is None:
                rest[t] = c
            elif v > 0:
                P.append((d, c, v))
            else:
                N.append((d, c, -v))
        STATS["elim"] += 1
        for d1, c1, v1 in P:
            for d2, c2, v2 in N:
                g = gcd(v1, v2)
                m1, m2 = v2 // g, v1 // g
                r = {k: v * m1 for k, v in d1.items()}
                for k, v in d2.items():
                    r[k] = r.get(k, 0) + v * m2
                r[None] = c1 * m1 + c2 * m2
                r.pop(best, None)
                if add(rest, r):
                    return True
        cs = rest
        if len(cs) > cap:
            STATS["giveup"] += 1
            return False
    return False


class Facts:
    """An immutable conjunction of constraints."""
    __slots__ = ("ges", "eqs", "nes", "doms", "ors", "cache", "bcache", "index")

    def __init__(self, ges=(), eqs=(), nes=(), doms=None, ors=()):
        self.ges = ges
        self.eqs = eqs
        self.nes = nes
        self.doms = doms or {}
        self.ors = ors
        self.cache = {}
        self.bcache = None
        self.index = None

    # ---- bounds
    def bounds(self):
        if self.bcache is None:
            lo, hi = {}, {}
            for l in self.eqs:
                if len(l.t) == 1:
                    a, k = l.t[0]
                    if l.c % k == 0:
                        lo[a] = hi[a] = -l.c // k
            for l in self.ges:
                if len(l.t) == 1:
                    a, k = l.t[0]
                    if k > 0:
                        b = -(l.c // k)
                        if lo.get(a) is None or lo[a] < b:
                            lo[a] = b
                    else:
                        b = l.c // (-k)
                        if hi.get(a) is None or hi[a] > b:
                            hi[a] = b
            for a, s in self.doms.items():
                if s:
                    if lo.get(a) is None or lo[a] < min(s):
                        lo[a] = min(s)
                    if hi.get(a) is None or hi[a] > max(s):
                        hi[a] = max(s)
            self.bcache = (lo, hi)
        return self.bcache

    def lo(self, a):
        x = self.bounds()[0].get(a)
        y = ATOM_LO[a]
        if x is None:
            return y
        if y is None:
            return x
        return max(x, y)

    def hi(self, a):
        x = self.bounds()[1].get(a)
        y = ATOM_HI[a]
        if x is None:
            return y
        if y is None:
            return x
        return min(x, y)

    def lin_lo(self, l):
        s = l.c
        for a, k in l.t:
            b = self.lo(a) if k > 0 else self.hi(a)
            if b is None:
                return None
            s += k * b
        return s

    def lin_hi(self, l):
        x = self.lin_lo(-l)
        return None if x is None else -x

    def _index(self):
        """Which constraints mention an atom."""
        ix = self.index
        if ix is None:
            ig, ie = {}, {}
            for out, ls in ((ig, self.ges), (ie, self.eqs)):
                for i, l in enumerate(ls):
                    for a, _ in l.t:
                        if a in out:
                            out[a].append(i)
                        else:
                            out[a] = [i]
            ix = self.index = (ig, ie)
        return ix

    def _component(self, atoms):
        """Constraints connected with the atoms, the atoms, and their bounds."""
        ig, ie = self._index()
        if _native is not None:
            return _native.component(atoms, ATOM_DEFS, ATOM_LO, ATOM_HI, self.ges, self.eqs, ig, ie, *self.bounds())
        todo = set(atoms)
        seen = set()
        ges, eqs = [], []
        tg, te = set(), set()
        while todo:
            seen |= todo
            new = set()
            ng, ne = set(), set()
            for a in todo:
                for d in ATOM_DEFS[a]:
                    ges.append(d)
                    for x, _ in d.t:
                        new.add(x)
                if a in ig:
                    ng.update(ig[a])
                if a in ie:
                    ne.update(ie[a])
            for n, t, ls, out in ((ng, tg, self.ges, ges), (ne, te, self.eqs, eqs)):
                n -= t
                t |= n
                for i in sorted(n):
                    l = ls[i]
                    out.append(l)
                    for x, _ in l.t:
                        new.add(x)
            todo = new - seen
        return ges, eqs, seen, {a: self.lo(a) for a in seen}, {a: self.hi(a) for a in seen}

    def _infeasible_with(self, extra_ge):
        atoms = set()
        for l in extra_ge:
            atoms.update(a for a, _ in l.t)
        ges, eqs, seen, lo, hi = self._component(atoms)
        STATS["queries"] += 1
        if propagate(ges + list(extra_ge), eqs, lo, hi):
            return True
        if infeasible(ges + list(extra_ge), eqs, lo, hi):
            return True
        # disequalities: strengthen when one side is excluded
        nes = [l for l in self.nes if any(a in seen for a, _ in l.t)]
        if nes:
            changed = True
            ges = ges + list(extra_ge)
            n = 0
            while changed and nes and n < 8:
                changed = False
                n += 1
                rest = []
                for l in nes:
                    if infeasible(ges + [-l - 1], eqs, lo, hi):   # l >= 0 must hold, so l >= 1
                        ges = ges + [l - 1]
                        changed = True
                    elif infeasible(ges + [l - 1], eqs, lo, hi):
                        ges = ges + [-l - 1]
                        changed = True
                    else:
                        rest.append(l)
                nes = rest
                if changed and infeasible(ges, eqs, lo, hi):
                    return True
        return False

    def entails(self, c):
        if c is True:
            return True
        if c is False:
            return self.contradictory()
        r = self.cache.get(c)
        if r is None:
            r = self._entails(c)
            self.cache[c] = r
        return r

    def contradictory(self):
        r = self.cache.get("contra")
        if r is None:
            lo = {}
            hi = {}
            ats = set()
            for l in self.ges + self.eqs:
                ats.update(a for a, _ in l.t)
            r = self._infeasible_with([A_(a) for a in ats]) if False else self._infeasible_all(ats)
            self.cache["contra"] = r
        return r

    def _infeasible_all(self, ats):
        ges, eqs, _, lo, hi = self._component(ats)
        return infeasible(ges, eqs, lo, hi)

    def _dom(self, a):
        d = self.doms.get(a)
        if d is None:
            l, h = self.lo(a), self.hi(a)
            if l is None or h is None or h - l > 300:
                return None
            d = frozenset(range(l, h + 1))
        return d

    def _entails(self, c):
        k = c[0]
        if k == "and":
            return self.entails(c[1]) and self.entails(c[2])
        if k == "or":
            if self.entails(c[1]) or self.entails(c[2]):
                return True
            f = self.assume(c_not(c[1]))
            return f is None or f.entails(c[2])
        l = c[1]
        if len(l.t) == 1:
            a, co = l.t[0]
            d = self.doms.get(a)
            if d is not None:
                if k == "ge":
                    if all(co * x + l.c >= 0 for x in d):
                        return True
                elif k == "eq":
                    if all(co * x + l.c == 0 for x in d):
                        return True
                elif all(co * x + l.c != 0 for x in d):
                    return True
            ex = self._tbl_expand(a)
            if ex is not None:
                ia, tbl = ex
                dd = self._dom(ia)
                if dd is not None:
                    vals = [co * tbl[x] + l.c for x in dd if 0 <= x < len(tbl)]
                    ok = {"ge": all(v >= 0 for v in vals), "eq": all(v == 0 for v in vals), "ne": all(v != 0 for v in vals)}[k]
                    if ok:
                        return True
        if k == "ge":
            m = self.lin_lo(l)
            if m is not None and m >= 0:
                return True
            m = self.lin_hi(l)
            if m is not None and m < 0:
                return self.contradictory()
            return self._infeasible_with([-l - 1])
        if k == "eq":
            if l in self.eqs:
                return True
            return self.entails(c_ge(l)) and self.entails(c_ge(-l))
        # ne
        if l in self.nes or -l in self.nes:
            return True
        m, n = self.lin_lo(l), self.lin_hi(l)
        if (m is not None and m > 0) or (n is not None and n < 0):
            return True
        f = self._add_eq(l)
        return f is None or f.contradictory() or f._infeasible_with([l])

    def feasible(self, c):
        return not self.entails(c_not(c))

    # ---- assumptions
    def _tbl_expand(self, a):
        k = ATOM_KEY[a]
        if isinstance(k, tuple) and k[0] == "tbl":
            ix = single_atom(k[2])
            if ix is not None:
                return ix, k[1]
        return None

    def _with_dom(self, a, pred):
        d = self._dom(a)
        if d is None:
            return None
        n = frozenset(x for x in d if pred(x))
        if not n:
            return False
        doms = dict(self.doms)
        doms[a] = n
        return doms

    def assume(self, c):
        """Facts with c added, or None if c is excluded. 'or' is kept only if
        one side is excluded (weaker, hence sound)."""
        if c is True:
            return self
        if c is False:
            return None
        k = c[0]
        if k == "and":
            f = self.assume(c[1])
            return f and f.assume(c[2])
        if k == "or":
            if self.entails(c):
                return self
            a = self.assume(c[1])
            b = self.assume(c[2])
            if a is None:
                return b
            if b is None:
                return a
            return Facts(self.ges, self.eqs, self.nes, self.doms, self.ors + (c,))
        if self.entails(c):
            return self
        if self.entails(c_not(c)):
            return None
        l = c[1]
        f = self
        if len(l.t) == 1:
            a, co = l.t[0]
            test = {"ge": lambda x: co * x + l.c >= 0, "eq": lambda x: co * x + l.c == 0, "ne": lambda x: co * x + l.c != 0}[k]
            ex = self._tbl_expand(a)
            if ex is not None:
                ia, tbl = ex
                nd = f._with_dom(ia, lambda x: 0 <= x < len(tbl) and test(tbl[x]))
                if nd is False:
                    return None
                if nd is not None:
                    f = Facts(f.ges, f.eqs, f.nes, nd, f.ors)
            if a in f.doms or (k == "ne" and f._dom(a) is not None):
                nd = f._with_dom(a, test)
                if nd is False:
                    return None
                if nd is not None:
                    f = Facts(f.ges, f.eqs, f.nes, nd, f.ors)
        if k == "ge":
            return Facts(f.ges + (l,), f.eqs, f.nes, f.doms, f.ors)._reors()
        if k == "eq":
            return Facts(f.ges, f.eqs + (l,), f.nes, f.doms, f.ors)._reors()
        return Facts(f.ges, f.eqs, f.nes + (l,), f.doms, f.ors)._reors()

    def _add_eq(self, l):
        return Facts(self.ges, self.eqs + (l,), self.nes, self.doms, self.ors)

    def _reors(self):
        if not self.ors:
            return self
        f = Facts(self.ges, self.eqs, self.nes, self.doms, ())
        keep = []
        for c in self.ors:
            na, nb = f.entails(c_not(c[1])), f.entails(c_not(c[2]))
            if na and nb:
                return None
            if na:
                f = f.assume(c[2])
            elif nb:
                f = f.assume(c[1])
            else:
                keep.append(c)
            if f is None:
                return None
        return Facts(f.ges, f.eqs, f.nes, f.doms, tuple(keep))

    def all(self):
        return [("ge", l) for l in self.ges] + [("eq", l) for l in self.eqs] + [("ne", l) for l in self.nes]

    def show(self):
        return [show_cond(c) for c in self.all()] + ["%s in %s" % (show_key(ATOM_KEY[a]), sorted(s)) for a, s in self.doms.items()]


def A_(a):
    return lin_atom(a)
