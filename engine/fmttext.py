"""What a path has written to a formatter or writer, from its calls."""
from terms import *
from interp import Adt, Arr, Sl, Ptr, Sym


def const_bytes(E, st, v):
    """The bytes of a constant string or byte slice, or None."""
    n = 0
    while isinstance(v, tuple) and len(v) == 2 and v[0] == "&":
        v = v[1]
    while isinstance(v, Ptr) and n < 5:
        try:
            v = E.read_cell(st, v.cell, v.path)
        except Exception:
            return None
        n += 1
    if isinstance(v, Adt) and len(v.f) == 1:
        return const_bytes(E, st, v.f[0])
    if isinstance(v, Sl) and v.region[0] == "const" and v.off.is_const() and v.len.is_const():
        return v.region[1][v.off.c:v.off.c + v.len.c]
    if isinstance(v, Arr) and all(isinstance(x, Lin) and x.is_const() for x in v.e):
        return bytes(x.c for x in v.e)
    return None


def template(b):
    """Pieces of a format template: literal bytes and None for arguments."""
    out = []
    i = 0
    while i < len(b):
        n = b[i]
        if n == 0:
            return out
        if n < 0x80:
            out.append(bytes(b[i + 1:i + 1 + n]))
            i += 1 + n
        elif n == 0x80:
            m = b[i + 1] | b[i + 2] << 8
            out.append(bytes(b[i + 3:i + 3 + m]))
            i += 3 + m
        elif n == 0xC0:
            out.append(None)
            i += 1
        else:
            return None
    return None


def pieces(E, st, args):
    """A fmt::Arguments value as a list of constant bytes and ("arg", how, value)."""
    if not (isinstance(args, Sym) and args.term[0] == "call"):
        return None
    name, snap = args.term[1], args.term[2]
    if name.endswith("::from_str") or name.endswith("::new_const") or name.endswith("from_str_nonconst"):
        b = const_bytes(E, st, snap[0])
        return None if b is None else [b]
    if name.endswith("Arguments::<'a>::new"):
        tb = const_bytes(E, st, snap[0])
        av = snap[1]
        while isinstance(av, tuple) and len(av) == 2:
            av = av[1]
        if tb is None or not isinstance(av, Arr):
            return None
        ps = template(tb)
        if ps is None:
            return None
        out = []
        i = 0
        for p in ps:
            if p is not None:
                out.append(p)
                continue
            a = av.e[i] if i < len(av.e) else None
            i += 1
            if not (isinstance(a, Sym) and a.term[0] == "call"):
                return None
            how = a.term[1].split("::")[-1]
            v = a.term[2][0]
            while isinstance(v, tuple) and len(v) == 2 and v[0] == "&":
                v = v[1]
            b = const_bytes(E, st, v) if how == "new_display" else None
            out.append(b if b is not None else ("arg", how, v))
        return out
    return None


def written(E, o):
    """Everything the path of an outcome wrote with write_str, write_fmt or pad,
    or None if it cannot be told."""
    out = []
    for ev in o.state.log:
        if ev[0] not in ("call", "dyn", "extern", "generic"):
            continue
        name = ev[1].get("name")
        if name in ("write_str", "pad", "write_char"):
            if name == "write_char":
                c = ev[2][1]
                if not (isinstance(c, Lin) and c.is_const()):
                    return None
                out.append(chr(c.c).encode())
                continue
            b = const_bytes(E, o.state, ev[2][1])
            out.append(b if b is not None else ("arg", "new_display", ev[3][1]))
        elif name == "write_fmt":
            p = pieces(E, o.state, ev[3][1])
            if p is None:
                return None
            out += p
    return out
