"""Call graph of the local functions and its recursion heads."""


def callees(body):
    for b in body.get("blocks") or []:
        if not b:
            continue
        ops = []
        t = b["t"]
        if t[0] == "call":
            ops.append(t[1])
            ops += t[2]
        for s in b["s"]:
            for x in s[1:]:
                if isinstance(x, dict):
                    ops.append(x)
                elif isinstance(x, list):
                    for y in x:
                        if isinstance(y, dict):
                            ops.append(y)
                        elif isinstance(y, list):
                            ops += [z for z in y if isinstance(z, dict)]
        for o in ops:
            if "k" in o and isinstance(o["k"]["v"], dict):
                v = o["k"]["v"]
                if "fndef" in v and v["fndef"].get("key"):
                    yield v["fndef"]["key"]


def graph(F):
    g = {}
    for k, f in F["fns"].items():
        g[k] = {c for c in callees(f) if c in F["fns"]} if "error" not in f else set()
    # closures are reached through the types of their captures
    for k, f in F["fns"].items():
        if "error" in f:
            continue
        for tid in f["locals"]:
            t = F["types"][tid]
            if t and t["k"] == "closure" and t.get("key") in F["fns"]:
                g[k].add(t["key"])
    return g


def sccs(g):
    index, low, on, st, out, n = {}, {}, set(), [], [], [0]
    for root in g:
        if root in index:
            continue
        work = [(root, iter(g[root]))]
        index[root] = low[root] = n[0]
        n[0] += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g[w])))
                    break
                elif w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.add(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in g[v]:
                        out.append(c)
    return out


def heads(F):
    """Functions at which recursion is cut: those of each recursive group that
    are called from outside the group or are part of the public interface."""
    g = graph(F)
    pub = {r["key"] for r in F["roots"] if r["reachable"]}
    pubpaths = {r["path"] for r in F["roots"] if r["reachable"]}
    out = {}
    for c in sccs(g):
        ent = set()
        for k in g:
            if k not in c:
                ent |= g[k] & c
        ent |= {k for k in c if k in pub or F["fns"][k]["path"] in pubpaths}
        for k in ent:
            out[k] = frozenset(c)
    return out
