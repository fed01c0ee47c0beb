"""Client programs that drive the library, written directly as MIR bodies: the
most general sequence of calls of a kind, analysed like any other function."""
from terms import *
import interp


class Harness:
    """A body under construction. Operands are ("c", local) copies, ("m", local)
    moves or integers of type usize."""
    count = 0

    def __init__(self, F, args):
        self.F = F
        Harness.count += 1
        self.key = "harness#%d" % Harness.count
        self.locals = [self.tid("()")] + list(args)
        self.argc = len(args)
        self.blocks = []
        self.cur = None

    def tid(self, s):
        for i, t in enumerate(self.F["types"]):
            if t and t["s"] == s:
                return i
        raise interp.Unsupported("type %s does not occur" % s)

    def ref_to(self, tid, mut=True):
        s = ("&mut " if mut else "&")
        for i, t in enumerate(self.F["types"]):
            if t and t["k"] == "ref" and t.get("e") == tid and bool(t.get("mut")) == mut:
                return i
        return None

    def local(self, tid):
        self.locals.append(tid)
        return len(self.locals) - 1

    def block(self):
        self.blocks.append({"s": [], "t": ["unreachable"], "sp": "harness"})
        self.cur = len(self.blocks) - 1
        return self.cur

    def at(self, b):
        self.cur = b
        return self

    def op(self, x):
        if isinstance(x, int):
            return {"k": {"t": self.tid("usize"), "v": {"int": x}}}
        if isinstance(x, dict):
            return x
        return {x[0]: [x[1]] + list(x[2:])}

    def set(self, dst, rv):
        self.blocks[self.cur]["s"].append(["=", [dst] if isinstance(dst, int) else list(dst), rv])

    def use(self, dst, x):
        self.set(dst, ["use", self.op(x)])

    def ref(self, dst, src, mut=True):
        self.set(dst, ["ref", mut, [src] if isinstance(src, int) else list(src)])

    def term(self, t):
        self.blocks[self.cur]["t"] = t

    def goto(self, b):
        self.term(["goto", b])

    def call(self, dst, key, args, target):
        b = self.F["fns"][key]
        fd = {"decl": b["path"], "name": b["path"].split("::")[-1], "args": [], "path": b["path"], "krate": "yason", "local": True,
              "unsafe": False, "rargs": [], "key": key, "kind": "item"}
        self.term(["call", {"k": {"t": 0, "v": {"fndef": fd}}}, [self.op(a) for a in args], [dst], target])

    def switch(self, x, cases, other):
        self.term(["switch", self.op(x), [[v, b] for v, b in cases], other, self.tid("isize")])

    def finish(self):
        self.F["fns"][self.key] = {"path": self.key, "local": True, "closure": False, "span": "harness", "argc": self.argc, "spread": None,
                                   "locals": self.locals, "names": [], "blocks": self.blocks}
        return self.key
