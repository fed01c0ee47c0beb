"""C19, C20, C21, C31 and C32: queries by path."""
import check_query as Q
import par

QUERY = "yason::path::PathExpression::query"
EXISTS = "yason::path::PathExpression::exists"
_cache = {}


def outer_job(F):
    st = par.Stats()
    res = []
    roles = None
    try:
        O = Q.Outer(F, QUERY)
        O.run()
        roles = Q.roles_of(O)
        res += list(Q.check_outer(F, st, QUERY, False, roles, O))
    except Exception as e:
        res.append(("undecided:query", "PathExpression::query: %s: %s" % (type(e).__name__, str(e)[:300]), "*"))
    try:
        res += list(Q.check_outer(F, st, EXISTS, True, roles))
    except Exception as e:
        res.append(("undecided:exists", "PathExpression::exists: %s: %s" % (type(e).__name__, str(e)[:300]), "*"))
    return roles, res, st.plain()


def selector_job(F, key, mode, roles):
    st = par.Stats()
    return list(Q.check_selector(F, st, key, mode, roles)), st.plain()


def analyse(F):
    """[(property, key, text or None, count)], statistics."""
    if "r" in _cache:
        return _cache["r"]
    out, stats = [], []
    for n in (QUERY, EXISTS):
        if n not in F["fns"]:
            out.append(("*", "missing:" + n, "%s is not found in the current source" % n, 0))
    if out:
        _cache["r"] = (out, stats)
        return _cache["r"]
    roles, res, pl = outer_job(F)
    stats.append(par.Stats.of(pl))
    for key, text, prop in res:
        out.append((prop, key, text, 0) if key is not None else (prop, None, None, text))
    keys = sorted(Q.groups_from(F, QUERY) | Q.groups_from(F, EXISTS))
    jobs = [(selector_job, (F, k, m, roles)) for m in ("plain", "wrapper", "exists") for k in keys]
    if len(keys) < 2:
        out.append(("*", "floor:selector", "only %d instances of the recursive selector are found; at least 2 are expected" % len(keys), 0))
    for (fn, (_, k, m, _r)), (st, r) in zip(jobs, par.run_jobs(jobs)):
        nm = F["fns"][k]["path"].rsplit("::", 1)[-1] + k[len(k.rstrip(">")) - len(k):] if False else F["fns"][k]["path"].rsplit("::", 1)[-1]
        if st == "error":
            out.append(("*", "undecided:%s" % nm, "%s (%s): %s" % (nm, m, r), 0))
            continue
        stats.append(par.Stats.of(r[1]))
        for key, text, kind, n in r[0]:
            for p in props(kind, m, text):
                out.append((p, key, text, n))
    _cache["r"] = (out, stats)
    return _cache["r"]


def props(kind, mode, text):
    """The properties a finding about a kind of step belongs to."""
    if kind == "*":
        return ["*"]
    ps = []
    if text is not None and "fails with" in text or text is not None and "although a step failed" in text:
        ps.append("C24")
    if mode == "exists":
        ps.append("C20")
        if text is None:
            return ps
    if kind.startswith("array"):
        ps.append("C31" if kind == "array Wildcard" else "C19")
    elif kind in ("key", "wildcard", "descendant"):
        ps.append("C31")
    elif kind == "method":
        ps.append("C32")
    elif kind == "end":
        ps.append("C21" if mode != "exists" else "C20")
    else:
        ps.append("C24")
    return ps


RULES = {
    "C19": "every path through the recursive selector at an array step is compared with the list of elements the step denotes: which elements it goes on with, in which order, with which step; loops by their induction step over an arbitrary index",
    "C31": "every path through the recursive selector at a key, wildcard or descendant step is compared with the list of values the step denotes; loops by their induction step over an arbitrary index",
    "C20": "in the existence mode every path through the recursive selector stops only at a reported match, goes on only after none, and returns whether one was found; exists starts it on the whole document and path in that mode",
    "C21": "every path of query is compared with the wrapper and buffer contract; at the end of the path the selector appends exactly the selected value, and refuses a second one without wrapper",
    "C32": "every path of the selector at an item method appends exactly one value with the size or the type name, and count() replaces the values by their number",
}
FLOOR = {"C19": 100, "C20": 100, "C21": 60, "C31": 100, "C32": 30}


def run(prop):
    def check(F, R):
        R.rules.append(RULES[prop])
        R.assumptions += ["the read interface (LazyValue, Object::lazy_get, Yason::data_type) behaves as the reader checks decide it",
                          "a path has its root step first, an item method only at its end and subscripts of at most 2^31-1, as the parser checks decide"]
        res, stats = analyse(F)
        for s in stats:
            R.use(s)
        n = 0
        for p, key, text, k in res:
            if p not in (prop, "*"):
                continue
            if key is None:
                R.good("cases agree", k)
                n += k
            else:
                R.bad(key, text)
        R.floor("cases compared", n, FLOOR[prop])
    return check


C19, C20, C21, C31, C32 = [run(p) for p in ("C19", "C20", "C21", "C31", "C32")]
