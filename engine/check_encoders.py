"""C03, C05 to C12, C22 and C28: the encoders."""
from terms import *
from spec import *
import interp
import layout as L
import builders as B
import check_readers
from interp import Adt, Sl, Ptr, VecV, Sym, State
from readers import root_like

SC = "yason::builder::scalar::Scalar"
_cache = {}


def scalars(F, fd):
    for name, t in (("string", 3), ("number", 4), ("bool", 5), ("null", 6)):
        for form in ("", "_with_vec"):
            ks = root_like(F, SC, name + form)
            label = "Scalar::" + name + form
            if not ks:
                fd.bad(B.ALLP + ["C22"], "missing:" + label, "%s is not found in the current source" % label)
            for k in ks:
                try:
                    scalar(F, fd, k, label, t, bool(form))
                except Exception as e:
                    fd.bad(B.ALLP + ["C22"], "undecided:" + label, "%s: %s: %s" % (label, type(e).__name__, str(e)[:300]))


def scalar(F, fd, key, label, t, ref):
    E = B.new_engine(F)
    body = E.fns[key]
    st = State()
    n0 = A(("buflen",), 0, interp.ISIZE_MAX) if ref else ZERO
    args = []
    val = None
    for i in range(body["argc"]):
        ty = body["locals"][i + 1]
        if ref and i == body["argc"] - 1:
            st.mem[("buf",)] = VecV(E.u8, n0, None, ("sym", ("before",)))
            args.append(Ptr(("buf",)))
        else:
            args.append(E.mk(("arg", i), ty))
            val = args[-1]
    outs = E.run(E.start(key, args, st))
    B.collect(fd, E, outs, label)
    fd.ops += 1
    strl = B.as_ref_slice(E, body, 0) if t == 3 else None
    n = 0
    for o in outs:
        if o.kind != "ret":
            continue
        fd.cases += 1
        f = o.state.facts
        err, good = B.err_payload(E, o.value), B.ok_payload(E, o.value)
        if err is not None:
            fd.err_paths += 1
            why = B.reserve_failed(o)
            if not why and t == 3 and isinstance(err, Adt) and vname(E, err) == "StringTooLong":
                why = f.entails(c_ge(strl.len - B.MAXSTR - 1))
            if not why:
                fd.bad(["C08"], "refused:" + label, "%s fails with %s on a path that shows no reason for it" % (label, show_val(E, err)))
            if ref and not L.untouched(E, f, o.state.mem[("buf",)], n0):
                fd.bad("C10", "append:" + label, "%s changes the bytes already in the buffer when it fails" % label)
            continue
        r = L.vec_of(E, o.state, good) if good is not None else None
        if r is None:
            fd.bad(B.ALLP + ["C22"], "undecided:" + label, "%s returns %s" % (label, show_val(E, o.value)))
            continue
        fd.ok_paths += 1
        n += 1
        V, off, ln = r
        if t == 3 and not f.entails(c_ge(const(B.MAXSTR) - strl.len)):
            fd.bad("C08", "accepted:" + label, "%s succeeds for a string of more than 2^28-1 bytes" % label)
            f = f.assume(c_ge(const(B.MAXSTR) - strl.len)) or f

        def spec(S):
            segs = [L.b1(t, "type code")]
            if t == 3:
                segs += L.varint(S, strl.len, "length prefix") + [L.copy(strl, "string")]
            elif t == 4:
                nt = B.Numterm(("as_ref", interp.TYNAME(body["locals"][1]), ("arg", 0)))
                m = B.numlen_of(o, nt)
                segs += [L.b1(m, "number length"), L.Seg("num", m, nt, "number")]
            elif t == 5:
                segs.append(L.b1(cond_lin(val), "bool"))
            return segs
        for segs, f2 in explore(E, spec, f):
            fd.cases += 1
            ms, e = B.match_any(E, o.state, f2, V, n0, segs)
            for lab, txt in ms:
                fd.bad(["C03", "C22"] if lab == "length prefix" else ["C03"], "layout:" + label, "%s: %s" % (label, txt))
            if not f2.entails(c_eq(V.len - e)):
                fd.bad(["C03", "C09", "C10"], "layout:" + label, "%s: the buffer ends at %r instead of %r" % (label, V.len, e))
            if not (f2.entails(c_eq(off - n0)) and f2.entails(c_eq(ln - (e - n0)))):
                fd.bad(["C03", "C10"], "result:" + label, "%s returns the bytes [%r, +%r) instead of [%r, +%r)" % (label, off, ln, n0, e - n0))
        if ref and not L.untouched(E, f, V, n0):
            fd.bad("C10", "append:" + label, "%s changes the bytes already in the buffer" % label)
        if t == 3:
            read_back(F, fd, E, o.state, f, good, strl, label)
    if not n:
        fd.bad(B.ALLP + ["C22"], "undecided:" + label, "%s has no successful path" % label)


def read_back(F, fd, E0, st, f, doc, strl, label):
    """Yason::string on the document just encoded returns the encoded string."""
    ks = root_like(F, "yason::yason::Yason", "string")
    if not ks:
        fd.bad("C22", "missing:Yason::string", "Yason::string is not found in the current source")
        return
    V, off, ln = L.vec_of(E0, st, doc)
    E = B.new_engine(F)
    s = State()
    s.facts = f
    s.mem[("enc",)] = V
    arg = Sl(("place", ("enc",), ()), off, ln, E.u8)
    t = E.T[E.fns[ks[0]]["locals"][1]]
    wrap = E.mk(("arg", 0), E.fns[ks[0]]["locals"][1])
    v = wrap_slice(E, wrap, arg)
    outs = E.run(E.start(ks[0], [v], s))
    fd.engines.append(E)
    k = 0
    for o in outs:
        if o.kind != "ret":
            fd.bad("C22", "readback:" + label, "%s: reading the string back: %s %s" % (label, o.kind, o.msg))
            continue
        g = B.ok_payload(E, o.value)
        if g is None:
            fd.bad("C22", "readback:" + label, "%s: reading the string back fails with %s" % (label, show_val(E, o.value)))
            continue
        k += 1
        x = unwrap(g)
        hit = None
        if isinstance(x, Sl) and o.state.facts.entails(c_eq(x.len - strl.len)):
            if o.state.facts.entails(c_eq(x.len)):
                continue
            hit = L.find_write(E, o.state.facts, V, x.off, x.len)
        if not (hit and hit[0][0] == "copy" and hit[0][1] == strl.region and o.state.facts.entails(c_eq(hit[0][2] + hit[1] - strl.off))):
            fd.bad("C22", "readback:" + label, "%s: reading the string back yields %s instead of the encoded string" % (label, show_val(E, g)))
    if not k:
        fd.bad("C22", "readback:" + label, "%s: reading the string back never succeeds" % label)
    fd.readbacks = getattr(fd, "readbacks", 0) + k


def wrap_slice(E, v, sl):
    """v, a value of a wrapper around a slice reference, with sl in its place."""
    if isinstance(v, Adt):
        return Adt(v.tid, v.var, [wrap_slice(E, x, sl) for x in v.f])
    return sl


def analyse(F):
    if "fd" not in _cache:
        fd = B.analyse(F)
        nb = fd.ops
        scalars(F, fd)
        fd.nb = nb
        _cache["fd"] = fd
    return _cache["fd"]


TEXTS = {
    "C03": "every success path of every constructor, push, finish and scalar encoder is compared with the published layout, byte range by byte range; builders start from an arbitrary reachable state (any count, buffer, level and depth)",
    "C05": "finish succeeds only on paths that establish count = declared; pushes only on paths that establish count < declared; the counting field moves by one with each successful push; the error names the declared count",
    "C06": "nested pushes succeed only on paths that establish a level below 100 and fail for depth only otherwise; every operation succeeds only if the shared depth equals the builder's level, which a nested push raises by one and the inner finish restores",
    "C07": "on every failing path of every push the buffer's length and content below it and every field of the builder equal those before the call",
    "C08": "every success path establishes that the key length, string length, offset and total size fit their fields; every stored field equals the exact, untruncated quantity",
    "C09": "the header, size and table bytes of a new container are written before they can be exposed and every growth of the buffer's length is by written bytes",
    "C10": "no write or truncation of any encoder concerns bytes below the buffer's length at its start; the returned slice starts there and ends at the buffer's end",
    "C11": "every growth of a vector is covered by capacity that a fallible reservation of the same call obtained, and a failed reservation leads to an error",
    "C12": "a push into an unsorted object inserts the key's offset at a place that the comparisons made justify, moving exactly the entries behind it; the search loop is shown to exclude only what compared less or greater",
    "C22": "the prefix bytes written equal the 7-bit groups of the length for every length up to 2^28-1, and reading the encoded string back returns it",
    "C28": "every path of every builder and scalar operation, from an arbitrary reachable state and arbitrary arguments, is free of panics, overflow and writes outside what the buffer holds",
}


def run(prop):
    def check(F, R):
        R.rules.append(TEXTS[prop])
        R.assumptions += ["std functions behave as documented (models in engine/models.py); Decimal::compact_encode writes 1 to 18 bytes and succeeds when the slice has room",
                          "two string arguments of one call span less than the address space together; AsRef and AsMut implementations of callers are pure",
                          "the facts are the MIR of the library built without debug assertions"]
        fd = analyse(F)
        for E in fd.engines:
            R.use(E)
        for p, k, t in fd.items:
            if p == prop:
                R.bad(k, t)
        R.good("success paths", fd.ok_paths, {"operations": fd.ops, "success paths": fd.ok_paths, "error paths": fd.err_paths})
        R.good("error paths", fd.err_paths)
        R.good("cases compared", fd.cases)
        R.good("accesses and reservations proved", sum(1 for E in fd.engines for o in E.obligations if o[0]))
        R.floor("builder operations", fd.nb, 84)
        R.floor("builder classes", getattr(fd, "classes", 0), 6)
        R.floor("operations", fd.ops, 92)
        R.floor("success paths", fd.ok_paths, 300)
        R.floor("error paths", fd.err_paths, 200)
        R.floor("reservations and accesses", sum(1 for E in fd.engines for o in E.obligations), 300)
        if prop == "C22":
            R.floor("read back", getattr(fd, "readbacks", 0), 2)
    return check


for _p in TEXTS:
    globals()[_p] = run(_p)
_c12 = C12


def C12(F, R):
    _c12(F, R)
    check_readers.C12(F, R)


def C28(F, R):
    run("C28")(F, R)
