"""C01, C02, C04, C12 (lookup part) and C27: the read interface."""
import re
from readers import *

_cache = {}


def fname(key):
    return re.sub(r"::<[^<>]*>", "", short(key))


def analyse_all(F):
    if "all" in _cache:
        return _cache["all"]
    out = []
    for ty, n, sp in SIMPLE:
        ks = root_like(F, ty, n)
        for k in ks:
            out.append((ty, n, "simple", guarded(lambda: analyse(F, k, with_doc(sp), fname(k)), k)))
        if not ks:
            out.append((ty, n, "simple", None))
    for ty, n, tr, sp in SIMPLE_T:
        ks = root_like(F, ty, n, tr)
        for k in ks:
            out.append((ty, n, "simple", guarded(lambda: analyse(F, k, with_doc(sp), fname(k)), k)))
        if not ks:
            out.append((ty, n, "simple", None))
    for n, kind, t in OBJ:
        ks = root_like(F, OBJECT, n)
        for k in ks:
            def run():
                r = analyse(F, k, with_doc(sp_obj(kind, t)), fname(k))
                a0 = r.E.mk(("arg", 0), r.E.fns[k]["locals"][1])
                D = doc_of(r.E, r.outs[0].state, a0)
                r.search = search_rule(r.E, D, r.outs, kind)
                return r
            out.append((OBJECT, n, "lookup", guarded(run, k)))
        if not ks:
            out.append((OBJECT, n, "lookup", None))
    for k in sorted(F["fns"]):
        if "#" in k and F["fns"][k].get("local") and F["fns"][k]["path"].startswith(OBJECT + "::") and F["fns"][k]["path"].endswith("::lazy_get"):
            def run():
                r = analyse(F, k, with_doc(sp_obj("lazy")), fname(k))
                a0 = r.E.mk(("arg", 0), r.E.fns[k]["locals"][1])
                r.search = search_rule(r.E, doc_of(r.E, r.outs[0].state, a0), r.outs, "lazy")
                return r
            out.append((OBJECT, "lazy_get", "lookup", guarded(run, k)))
    for name, k, go in lazy_values(F):
        out.append(("yason::yason::LazyValue", name, "lazy", guarded(go, k)))
    for ty, n, kind in ITERS:
        ks = root_like(F, ty, n)
        for k in ks:
            r = guarded(lambda: iterator(F, k, kind), k)
            r.name = fname(k)
            out.append((ty, n, "iter", r))
        if not ks:
            out.append((ty, n, "iter", None))
    _cache["all"] = out
    return out


def guarded(f, key):
    try:
        return f()
    except Exception as e:
        r = Result(fname(key), key)
        r.unsup.append("%s: %s" % (type(e).__name__, str(e)[:300]))
        return r


TEXTS = {
    "C01": "each path of each typed accessor and type query is compared with a decision table over the stored type code",
    "C02": "each path of each reader is free of panics, overflow, division by zero and accesses not shown to lie inside the given bytes, for a document of arbitrary bytes and length",
    "C04": "each path of each reader is compared with the layout: the positions and lengths, as terms over the document's bytes, of everything it returns",
    "C12": "each lookup returns a member only on paths that found its key equal; the search loop is shown to discard only entries that compared unequal in the length-then-bytes order, to narrow in every iteration, and to report absence only when nothing is left",
    "C27": "a client loop that drives each iterator to its end is analysed: item k is the k-th stored entry, None comes exactly when k is the element count, and again after that",
}


def run(prop, wanted, cats, kinds, floors):
    def check(F, R):
        R.rules.append(TEXTS[prop])
        R.assumptions += ["std functions behave as documented (models in engine/models.py); Decimal::decode is total and pure",
                          "the facts are the MIR of the library built without debug assertions"]
        n = 0
        for ty, name, kind, r in analyse_all(F):
            if kind not in kinds:
                continue
            if r is None:
                if wanted:
                    R.bad("missing:%s::%s" % (ty, name), "%s::%s, which the property is about, is not found in the current source" % (ty, name))
                continue
            n += 1
            if r.E is not None:
                R.use(r.E)
            for t in r.unsup:
                R.bad("undecided:%s" % r.name, "%s: cannot be decided: %s" % (r.name, t))
            if not wanted:
                for t in r.panics:
                    R.bad("panic:%s" % r.name, "%s: may panic: %s" % (r.name, t))
                for t in r.obl:
                    R.bad("bounds:%s" % r.name, "%s: %s" % (r.name, t))
                R.good("paths without panic", len(r.outs), {"function": r.name, "paths": len(r.outs)})
                R.good("proved accesses and reservations", sum(1 for o in r.E.obligations if o[0]) if r.E else 0)
                continue
            R.good("cases agree", r.cases, {"function": r.name, "cases": r.cases})
            for cat, t in r.mism:
                if cat in cats:
                    R.bad("%s:%s" % (cat, r.name), "%s: %s" % (r.name, t))
            if prop == "C12":
                nb, ps = getattr(r, "search", (0, []))
                R.good("search steps", nb)
                for t in ps:
                    R.bad("search:%s" % r.name, "%s: %s" % (r.name, t))
        R.floor("entry points", n, floors)
    return check


ALL = ("simple", "lookup", "iter", "lazy")
C01 = run("C01", True, ("type", "both"), ALL, 38)
C02 = run("C02", False, (), ALL, 38)
C04 = run("C04", True, ("pos", "both"), ALL, 38)
C12 = run("C12", True, ("lookup",), ("lookup",), 10)
C27 = run("C27", True, ("type", "both", "pos", "lookup"), ("iter",), 4)
