"""Runs of bytes of one class, and the joining of paths at returns.

A loop that advances by one byte while the byte is in a set is summarised by a term run(set, region, base):
the number of bytes of the set from base on.  Paths of a callee that end with the same memory are joined;
the joined path keeps the facts all of them imply."""
from terms import *
import interp
from interp import Ptr, Sl, VecV, Sym, Adt, Arr, is_cond


class Bytes(frozenset):
    """A set of bytes."""

    def __repr__(self):
        out, xs = [], sorted(self)
        for x in xs:
            if out and out[-1][1] == x - 1:
                out[-1][1] = x
            else:
                out.append([x, x])
        return "".join(name(a) if a == b else name(a) + "-" + name(b) for a, b in out)


def name(b):
    return chr(b) if 32 < b < 127 else "x%02x" % b


def run_atom(E, bits, region, base):
    """run(bits, region, base) as a linear term."""
    # nothing is left of a run after a run of a larger set
    for a, k in base.t:
        key = ATOM_KEY[a]
        if k == 1 and isinstance(key, tuple) and key[0] == "run" and key[2] == region and bits <= key[1] and base - lin_atom(a) == key[3]:
            return ZERO
    r = A(("run", bits, region, base), 0, interp.ISIZE_MAX)
    E.runs.setdefault(single_atom(r), (bits, region, base))
    return r


def region_len(E, region):
    return A(("len", region[1]), 0, interp.len_max(region[1])) if region[0] == "sym" else None


def after_loop(E, L, exits):
    """Names what a scanning loop skipped."""
    if not L.backs or not exits:
        return
    for loc, init, cur, nexts in L.carried:
        if not nexts or not all(by_one(s.facts, n - cur) for (s, _), n in zip(L.backs, nexts)):
            continue
        atom = single_atom(cur)
        for a in tested(L, atom):
            _, region, off = ATOM_KEY[a]
            k = off - cur
            if not k.is_const() or region[0] != "sym":
                continue
            bits = set()
            for s, _ in L.backs:
                d = s.facts._dom(a)
                bits |= set(d if d is not None else range(256))
            if len(bits) == 256:
                continue
            end = region_len(E, region)
            if not all(ends(s, a, bits, off, end) for s in exits):
                continue
            r = run_atom(E, Bytes(bits), region, init + k)
            for s in exits:
                f = s.facts.assume(c_eq(cur - init - r))
                if f is not None:
                    s.facts = f
            break


def by_one(f, d):
    return d.c == 1 if d.is_const() else f.entails(c_eq(d - 1))


def ends(s, a, bits, off, end):
    """Whether a path leaves the loop because the class ends."""
    d = s.facts._dom(a)
    if d is not None and not (d & bits):
        return True
    return end is not None and s.facts.entails(c_ge(off - end))


def tested(L, atom):
    """The bytes at carried positions which the loop tests on every way back."""
    out = None
    for s, _ in L.backs:
        ks = {a for a in atoms_of(s.facts) if is_byte_at(a, atom)}
        out = ks if out is None else out & ks
    return sorted(out or ())


def atoms_of(f):
    out = set(f.doms)
    for l in f.ges + f.eqs + f.nes:
        out.update(a for a, _ in l.t)
    return out


def is_byte_at(a, atom):
    k = ATOM_KEY[a]
    return isinstance(k, tuple) and k[0] == "byte" and isinstance(k[2], Lin) and any(x == atom for x, _ in k[2].t)


def on_byte(E, st, region, off, v):
    """A byte inside a run is one of its set; the byte that ends it is not."""
    if not isinstance(v, Lin) or off.is_const() and not E.runs:
        return
    a = single_atom(v)
    if a is None or a in st.facts.doms:
        return
    f = st.facts
    for r in [x for x in atoms_of(f) if x in E.runs]:
        bits, reg, base = E.runs[r]
        if reg != region:
            continue
        d = off - base
        if d == lin_atom(r):
            pass
        elif f.entails(c_ge(d)) and f.entails(c_ge(lin_atom(r) - d - 1)):
            g = Facts(f.ges, f.eqs, f.nes, dict(f.doms, **{}), f.ors)
            g.doms = dict(f.doms)
            g.doms[a] = frozenset(bits) & (f._dom(a) or frozenset(range(256)))
            st.facts = g
            return


class Join:
    """Explores calls of local functions to their return and joins their paths."""

    def __init__(self, other=None):
        self.other = other

    def __call__(self, E, st, callee, args, dest, target, span):
        if self.other is not None:
            r = self.other(E, st, callee, args, dest, target, span)
            if r is not None:
                return r
        key = callee.get("key")
        if (callee.get("path") or callee["decl"]).rsplit("::", 1)[-1] == "count" and key in E.fns and len(args) == 1 and st.frames:
            r = count_run(E, st, args[0], dest, target)
            if r is not None:
                return r
        if key not in E.fns or not st.frames or target is None or not (callee.get("local") or E.T[dest[3]]["k"] == "bool"):
            return None
        body = E.fns[key]
        if "error" in body or body.get("closure") or len(args) != body["argc"] or any(f.key == key for f in st.frames):
            return None
        if E.models.lookup(E, callee, args) is not None:
            return None
        depth = len(st.frames)
        s = st.copy()
        E.push_frame(s, key, E.body(key), args, dest, target, span)
        stopped, outs = E.explore(s, lambda x: "ret" if len(x.frames) <= depth else None)
        return list(outs) + join(E, st, [x for _, x in stopped])


def count_run(E, st, it, dest, target):
    """take_while(predicate).count() over the rest of a slice of bytes."""
    if isinstance(it, Sym):
        it = E.expand(it)
    if not isinstance(it, Adt) or not E.T[it.tid].get("path", "").endswith("::TakeWhile") or len(it.f) != 3:
        return None
    names = E.T[it.tid]["variants"][0]["f"]
    inner = done = pred = None
    for x in it.f:
        if is_cond(x):
            done = x
        elif isinstance(x, (Adt, Sym)) and (E.T[x.tid].get("path") or "") == "core::slice::iter::Iter":
            inner = E.expand(x) if isinstance(x, Sym) else x
        else:
            pred = x
    if inner is None or done is None or pred is None or not st.facts.entails(c_not(done)):
        return None
    ps = [interp_ptr(E, x) for x in inner.f]
    ps = [x for x in ps if x is not None and x.cell[0] == "el"]
    if len(ps) != 2 or ps[0].cell[1] != ps[1].cell[1] or ps[0].cell[3] != E.u8 or ps[0].path or ps[1].path:
        return None
    region, base, end = ps[0].cell[1], ps[0].cell[2], ps[1].cell[2]
    if region[0] != "sym" or not st.facts.entails(c_eq(end - region_len(E, region))) or not st.facts.entails(c_ge(end - base)):
        return None
    c = classes(E, st, pred)
    if c is None:
        return None
    r = run_atom(E, c, region, base)
    if not r.is_const():
        f = st.facts.assume(c_ge(end - base - r))
        if f is None:
            return None
        st.facts = f
        if not know_runs(E, st, [single_atom(r)]):
            return []
    return E.finish_call(st, dest, target, r)


def interp_ptr(E, v):
    while isinstance(v, Adt) and len(v.f) == 1:
        v = v.f[0]
    return v if isinstance(v, Ptr) else None


def classes(E, st, pred):
    """The bytes a predicate accepts, if it is a plain predicate."""
    if not isinstance(pred, (Adt, Sym)):
        return None
    key = closure_body(E, pred.tid)
    if key is None or any(isinstance(x, (Lin, Sym)) for x in getattr(pred, "f", ())):
        return None
    memo = E.__dict__.setdefault("_classes", {})
    inner = tuple(held(E, st, x, 0) for x in getattr(pred, "f", ()))
    if None in inner:
        return None
    if (key, inner) not in memo:
        memo[key, inner] = try_classes(E, st, pred, key)
    return memo[key, inner]


def closure_body(E, tid):
    t = E.T[tid]
    if t["k"] != "closure":
        return None
    memo = E.__dict__.setdefault("_closures", {})
    if tid not in memo:
        memo[tid] = None
        for k, b in E.fns.items():
            if b.get("closure") and "@" + t["path"] in k and "error" not in b and b["argc"]:
                a = b["locals"][1]
                if a == tid or E.T[a]["k"] == "ref" and E.T[a]["e"] == tid:
                    memo[tid] = k
    return memo[tid]


def held(E, st, x, d):
    """What a closure holds, if that is nothing but other closures."""
    if isinstance(x, Ptr) and d < 4:
        try:
            return held(E, st, E.read_cell(st, x.cell, x.path), d + 1)
        except interp.Unsupported:
            return None
    if isinstance(x, (Adt, Sym)) and E.T[x.tid]["k"] == "closure" and isinstance(x, Adt):
        r = tuple(held(E, st, y, d + 1) for y in x.f)
        return None if None in r else (x.tid,) + r
    return None


def try_classes(E, st, pred, key):
    body = E.fns[key]
    if "error" in body or body["argc"] != 2:
        return None
    s = st.copy()
    a = atom(("class", key), 0, 255)
    c = [("cls", i) for i in range(4)]
    s.mem[c[0]] = lin_atom(a)
    s.mem[c[1]] = Ptr(c[0])
    s.mem[c[2]] = pred
    s.mem[c[3]] = False
    before = {k: v for k, v in s.mem.items() if k != c[3]}
    depth = len(s.frames)
    bt = body["locals"][0]
    if E.T[bt]["k"] != "bool":
        return None
    first = Ptr(c[2]) if E.T[body["locals"][1]]["k"] == "ref" else pred
    at = E.T[body["locals"][2]]
    n = 0
    while at["k"] == "ref":
        at, n = E.T[at["e"]], n + 1
    if n not in (1, 2) or at != E.T[E.u8]:
        return None
    fr = s.frames[-1]
    E.push_frame(s, key, body, [first, Ptr(c[n - 1])], ("c", c[3], (), bt), fr.bb, "")
    stopped, outs = E.explore(s, lambda x: "ret" if len(x.frames) <= depth else None)
    if outs:
        return None
    yes, no = set(), set()
    for _, x in stopped:
        v = x.mem.get(c[3])
        if {k: w for k, w in x.mem.items() if k != c[3] and k in before} != before:
            return None
        for cond, out in ((v, yes), (c_not(v), no)):
            f = x.facts.assume(cond)
            if f is not None and not f.contradictory():
                out |= f._dom(a)
    if yes & no or len(yes) == 256:
        return None
    return Bytes(yes)


def join(E, pre, states):
    if not states:
        return states
    runs = sorted({a for s in states for a in atoms_of(s.facts) if a in E.runs})
    states = [s for s in states if know_runs(E, s, runs)]
    if not states:
        return states
    for s in states:
        collect(s, pre)
    canonical(E, states, pre, runs)
    groups, order = {}, []
    for s in states:
        k = (frozenset((c, v) for c, v in s.mem.items()), tuple((f.fid, f.bb) for f in s.frames), s.tags)
        if k not in groups:
            groups[k] = []
            order.append(k)
        groups[k].append(s)
    out = []
    for k in order:
        g = groups[k]
        if len(g) == 1:
            out.append(g[0])
            continue
        E.joined += len(g) - 1
        x = g[0].copy()
        x.facts = common(E, pre.facts, [s.facts for s in g], runs)
        x.nfid, x.ncall = max(s.nfid for s in g), max(s.ncall for s in g)
        x.log = max((s.log for s in g), key=len)
        out.append(x)
    return out


def know_runs(E, s, runs):
    """The runs that are empty, and those that are not. Returns whether the path is possible."""
    f = s.facts
    here = atoms_of(f)
    for r in runs:
        if f.hi(r) == 0:
            continue
        bits, region, base = E.runs[r]
        d = f._dom(single_atom(A(("byte", region, base), 0, 255)))
        if d is not None and d <= bits:
            if f.lo(r) == 0:
                f = f.assume(c_ge(lin_atom(r) - 1))
        elif d is not None and not (d & bits) or f.lo(r) == 0 and all(a in here for a, _ in base.t) and f.entails(c_ge(base - region_len(E, region))):
            f = f.assume(c_eq(lin_atom(r)))
        if f is None:
            return False
    s.facts = f
    return True


def common(E, base, fs, runs):
    extra, seen = [], set(base.all())
    for f in fs:
        for c in f.all():
            if c not in seen:
                seen.add(c)
                extra.append(c)
    for r in runs:
        _, region, b = E.runs[r]
        extra.append(c_ge(region_len(E, region) - b - lin_atom(r)))
    g = base
    for c in extra:
        if all(f.entails(c) for f in fs):
            g = g.assume(c) or g
    doms = dict(g.doms)
    for a in set.intersection(*[atoms_of(f) for f in fs]):
        old = g._dom(a)
        if old is None or len(old) > 256:
            continue
        ds = [f._dom(a) for f in fs]
        if None in ds:
            continue
        d = frozenset().union(*ds)
        if old is None or d < old:
            doms[a] = d
    ors = tuple(c for c in fs[0].ors if all(c in f.ors for f in fs))
    return Facts(g.ges, g.eqs, g.nes, doms, tuple(dict.fromkeys(g.ors + ors)))


def cells_in(v, out):
    if isinstance(v, Ptr):
        out.add(v.cell)
    elif isinstance(v, Sl):
        if v.region[0] == "place":
            out.add(v.region[1])
    elif isinstance(v, Adt):
        for x in v.f:
            cells_in(x, out)
    elif isinstance(v, Arr):
        for x in v.e:
            cells_in(x, out)
    elif isinstance(v, VecV):
        for w in v.writes:
            inside(w, out)


def inside(w, out):
    if isinstance(w, tuple):
        for x in w:
            inside(x, out)
    else:
        cells_in(w, out)


def collect(s, pre):
    """Forgets the cells no live frame can reach."""
    live = {f.fid for f in s.frames}
    todo = [c for c in s.mem if c[0] in live or c in pre.mem]
    seen = set(todo)
    while todo:
        c = todo.pop()
        new = set()
        cells_in(s.mem.get(c), new)
        for x in new:
            if x not in seen:
                seen.add(x)
                todo.append(x)
    for c in [c for c in s.mem if c not in seen and c[0] not in ("ref",)]:
        del s.mem[c]


def canonical(E, states, pre, runs):
    """Writes the positions that the call changed on some path in terms of runs."""
    if not runs:
        return
    for c in set().union(*[s.mem for s in states]):
        vs = [s.mem.get(c) for s in states]
        ws = rewrite(E, states, vs, pre.mem.get(c), runs)
        for s, v in zip(states, ws):
            if v is not None:
                s.mem[c] = v


def rewrite(E, states, vs, old, runs):
    if all(v == old for v in vs):
        return vs
    if all(isinstance(v, Lin) or v is None for v in vs):
        return [v if v is None else in_runs(E, s, v, runs) for s, v in zip(states, vs)]
    v = next(v for v in vs if v is not None)
    if isinstance(v, Adt) and all(x is None or isinstance(x, Adt) and x.tid == v.tid and len(x.f) == len(v.f) and x.var == v.var for x in vs):
        o = old.f if isinstance(old, Adt) and len(old.f) == len(v.f) else [None] * len(v.f)
        fs = []
        for i in range(len(v.f)):
            fs.append(rewrite(E, states, [x if x is None else x.f[i] for x in vs], o[i], runs))
        return [x if x is None else Adt(x.tid, x.var, [f[j] for f in fs]) for j, x in enumerate(vs)]
    out = []
    for s, x in zip(states, vs):
        if isinstance(x, Adt):
            o = old.f if isinstance(old, Adt) and len(old.f) == len(x.f) else [None] * len(x.f)
            x = Adt(x.tid, x.var, [rewrite(E, [s], [y], z, runs)[0] for y, z in zip(x.f, o)])
        out.append(x)
    return out


def in_runs(E, s, v, runs):
    for r in reversed(runs):
        bits, region, base = E.runs[r]
        x = lin_atom(r)
        if v == base + x or v == x:
            return v
        if s.facts.entails(c_eq(v - base - x)):
            return base + x
        if not v.is_const() and s.facts.entails(c_eq(v - x)):
            return x
    return v
