"""C26: type codes, conversions and names."""
from readers import *
import interp
import fmttext

CODES = {"Object": 1, "Array": 2, "String": 3, "Number": 4, "Bool": 5, "Null": 6}
DT = "yason::data_type::DataType"


def C26(F, R):
    R.rules.append("the type-code table is read from the compiled enum, and every conversion, name and display function is evaluated for each of its variants (and for an arbitrary byte) by abstract interpretation")
    T = F["types"]
    tid = next((i for i, t in enumerate(T) if t and t.get("path") == DT and t["k"] == "adt"), None)
    if tid is None:
        R.bad("missing:DataType", "the type DataType is not found")
        return
    vs = T[tid]["variants"]
    for v in vs:
        if CODES.get(v["n"]) == v["d"]:
            R.good("published code", 1, {"variant": v["n"], "code": v["d"]})
        else:
            R.bad("code:%s" % v["n"], "DataType::%s has the code %s; the published format has %s" % (v["n"], v["d"], CODES.get(v["n"])))
    for n in CODES:
        if n not in [v["n"] for v in vs]:
            R.bad("code:%s" % n, "DataType has no variant %s" % n)

    def single(key, args):
        E = interp.Engine(F, models)
        st = interp.State()
        av = []
        for i, a in enumerate(args):
            t = E.fns[key]["locals"][i + 1]
            if T[t]["k"] == "ref" and a is not None:
                st.mem[("ghost", i)] = a
                a = interp.Ptr(("ghost", i))
            av.append(E.mk(("arg", i), t) if a is None else a)
        outs = E.run(E.start(key, av, st))
        R.use(E)
        return E, outs

    def each(key, label, nargs, judge):
        for i, v in enumerate(vs):
            E, outs = single(key, [interp.Adt(tid, i, ())] + [None] * (nargs - 1))
            if not outs:
                R.bad("%s:%s" % (label, v["n"]), "%s has no result for %s" % (label, v["n"]))
            for o in outs:
                t = "is a panic or cannot be decided: %s" % o.msg if o.kind != "ret" else judge(E, o, v)
                if t is None:
                    R.good(label)
                else:
                    R.bad("%s:%s" % (label, v["n"]), "%s for DataType::%s %s" % (short(key), v["n"], t))

    n = 0
    # DataType -> u8
    for x in F["roots"]:
        if x.get("trait") == "core::convert::From" and x["name"] == "from" and x["inputs"] == [tid]:
            n += 1

            def judge(E, o, v):
                return None if isinstance(o.value, Lin) and o.value == const(CODES.get(v["n"], -1)) else "yields %s instead of %s" % (show_val(E, o.value), CODES.get(v["n"]))
            each(x["key"], "to code", 1, judge)
        if x.get("trait") == "core::convert::TryFrom" and x["name"] == "try_from" and x.get("self_ty") == tid:
            n += 1
            E, outs = single(x["key"], [None])
            b = E.mk(("arg", 0), E.fns[x["key"]]["locals"][1])
            for o in outs:
                if o.kind != "ret":
                    R.bad("from code", "%s: %s %s" % (short(x["key"]), o.kind, o.msg))
                    continue

                def spec(S):
                    for name, c in CODES.items():
                        if S.br(c_eq(b - c)):
                            return ok(("dtype", c))
                    return ("err", "InvalidDataType", [("int", b)])
                for exp, f in explore(E, spec, o.state.facts):
                    m = match(E, o.state, o.value, exp, f) if exp[0] != "err" else wrong_code(E, o.value, b, f)
                    if m is None:
                        R.good("from code")
                    else:
                        R.bad("from code", "%s: %s" % (short(x["key"]), m.text))
        if x.get("self_ty") == tid and x["name"] == "name" and not x.get("trait"):
            n += 1

            def judge(E, o, v):
                b = fmttext.const_bytes(E, o.state, o.value)
                return None if b == v["n"].lower().encode() else "yields %r instead of %r" % (b, v["n"].lower())
            each(x["key"], "name", 1, judge)
        if x.get("trait") == "core::fmt::Display" and x.get("self_ty") == tid:
            n += 1

            def judge(E, o, v):
                w = fmttext.written(E, o)
                if w is None or any(not isinstance(p, bytes) for p in w):
                    return "writes something that is not a constant"
                if isinstance(o.value, interp.Adt) and vname(E, o.value) == "Err":
                    return None
                b = b"".join(w)
                return None if b == v["n"].encode() else "writes %r instead of %r" % (b, v["n"])
            each(x["key"], "display text", 2, judge)
        if x["name"] == "data_type" and not x.get("trait") and x.get("self_ty") is not None and T[x["self_ty"]].get("path") == "yason::yason::Value":
            n += 1
            E = interp.Engine(F, models)
            st = interp.State()
            a = E.mk(("arg", 0), E.fns[x["key"]]["locals"][1])
            outs = E.run(E.start(x["key"], [a], st))
            R.use(E)
            evs = T[x["self_ty"]]["variants"]
            seen = set()
            for o in outs:
                if o.kind != "ret":
                    R.bad("value type", "%s: %s %s" % (short(x["key"]), o.kind, o.msg))
                    continue
                for i, v in enumerate(evs):
                    d = A(("discr", ("*", ("arg", 0))), 0, len(evs) - 1)
                    f = o.state.facts.assume(c_eq(d - v["d"]))
                    if f is None or f.contradictory():
                        continue
                    seen.add(v["n"])
                    m = match(E, o.state, o.value, ("dtype", CODES.get(v["n"], 0)), f)
                    if m is None:
                        R.good("value type")
                    else:
                        R.bad("value type:%s" % v["n"], "%s for Value::%s %s" % (short(x["key"]), v["n"], m.text))
            if seen != set(CODES):
                R.bad("value type", "Value::data_type is decided only for %s" % sorted(seen))
    R.floor("conversion and naming functions", n, 5)


def wrong_code(E, v, b, f):
    if not (isinstance(v, interp.Adt) and vname(E, v) == "Err"):
        return Mismatch("type", "returns %s for a byte that is no type code" % show_val(E, v))
    x = unwrap(v.f[0])
    if isinstance(x, interp.Adt) and len(x.f) == 1:
        x = unwrap(x.f[0])
    if isinstance(x, Lin) and f.entails(c_eq(x - b)):
        return None
    return Mismatch("type", "rejects a byte with the code %s instead of the byte" % show_val(E, x))
