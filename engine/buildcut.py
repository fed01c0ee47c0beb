"""Building and scalar encoding as events, for the code above the builders
(import, serialization, query results): what each call appends is decided by
the encoder checks; here only which calls are made, with which values."""
from terms import *
import interp
from interp import is_cond, Ptr, Sl, VecV, Sym, Adt
from spec import unwrap
from models import variant, payload_tid
from api import key_content

PUSHES = ("push_null", "push_bool", "push_number", "push_string", "push_object", "push_array",
          "push_object_or_array", "try_new", "finish")
SCALARS = ("null", "bool", "number", "string", "null_with_vec", "bool_with_vec", "number_with_vec", "string_with_vec")


def is_builder_tid(E, tid):
    t = E.T[tid]
    n = 0
    while t["k"] in ("ref", "ptr") and n < 3:
        t = E.T[t["e"]]
        n += 1
    return t.get("k") == "adt" and (t.get("path") or "").startswith("yason::builder::") and (t.get("path") or "").endswith("Builder")


def target(E, st, v):
    """What an argument finally refers to."""
    n = 0
    while isinstance(v, Ptr) and n < 6:
        v = E.read_cell(st, v.cell, v.path)
        n += 1
    return v


def resolve(E, st, v):
    """An argument as a value: text by its content, everything else by term."""
    if isinstance(v, (Lin,)) or is_cond(v):
        return v
    x = target(E, st, v)
    u = unwrap(x)
    if isinstance(u, (Sl, VecV)):
        try:
            return ("text", key_content(E, st, u))
        except interp.Unsupported:
            return u
    return x


def vec_behind(E, st, v):
    """The cell of the vector an argument refers to."""
    n = 0
    while isinstance(v, Ptr) and n < 6:
        x = E.read_cell(st, v.cell, v.path)
        if not isinstance(x, Ptr):
            return (v.cell, v.path), x
        v = x
        n += 1
    return None, v


def vecs_in(v, u8, out, d=0):
    if isinstance(v, VecV):
        if v.etid != u8 and v not in out:
            out.append(v)
    elif isinstance(v, Adt) and d < 4:
        for x in v.f:
            vecs_in(x, u8, out, d + 1)


class BuildCut:
    def __call__(self, api, E, st, callee, args, dest, target_, span):
        name = callee.get("path") or callee["decl"]
        seg = callee.get("name") or name.rsplit("::", 1)[-1]
        if not callee.get("local"):
            return None
        rt = dest[3]
        if seg in SCALARS and name.startswith("yason::builder::scalar::Scalar::"):
            return self.act(api, E, st, seg, None, args, dest, target_)
        if seg not in PUSHES:
            return None
        if E.tk(rt) != "adt":
            return None
        try:
            pt = payload_tid(E, rt, "Ok")
        except Exception:
            return None
        if seg == "try_new":
            if not is_builder_tid(E, pt):
                return None
            return self.act(api, E, st, seg, None, args, dest, target_, made=True)
        b = target(E, st, args[0]) if args else None
        t = getattr(b, "tid", None)
        if t is None or not is_builder_tid(E, t):
            return None
        return self.act(api, E, st, seg, b.term if isinstance(b, Sym) else b, args[1:], dest, target_, made=seg in ("push_object", "push_array"), this=args[0])

    def act(self, api, E, st, seg, bid, args, dest, target_, made=False, this=None):
        n = api.fresh(st)
        rt = dest[3]
        vals = tuple(resolve(E, st, a) for a in args)
        vec = None
        for a in args:
            c, x = vec_behind(E, st, a)
            if c is not None and isinstance(x, VecV):
                vec = (c, x)
        # the vectors of values at this point
        filled = []
        for c in sorted(st.mem, key=repr):
            vecs_in(st.mem[c], E.u8, filled)
        filled = tuple(filled)
        ev = ("act", seg, bid, vals, n, vec, filled)
        s = st.copy()
        e = E.mk(("acterr", n), payload_tid(E, rt, "Err"))
        s.emit(ev + (False,))
        s.emit(("fail", e))
        out = E.finish_call(s, dest, target_, variant(E, rt, "Err", [e]))
        st.emit(ev + (True,))
        pt = payload_tid(E, rt, "Ok")
        if made:
            v = Sym(("builder", n), pt)
        elif this is not None and isinstance(this, Ptr) and is_builder_tid(E, pt):
            v = this
        else:
            v = E.mk(("built", n), pt) if E.T[pt].get("size") != 0 else E.zst(pt)
        return out + E.finish_call(st, dest, target_, variant(E, rt, "Ok", [v]))
