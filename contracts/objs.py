"""Shared: one object of a class with every field unknown, and a record of the calls it makes on others."""
from jobq import *
from c01 import G, vfun


class Rec:
    """calls made so far, in order: (name, arguments, result)"""
    def __init__(self, l=()): self.l = tuple(l)

    @staticmethod
    def havoc(ex, st): raise Unsupported("calls made inside a loop")


def note(st, name, args=(), res=None): st.ghost["calls"] = Rec(st.ghost["calls"].l + ((name, tuple(args), res),))


def calls(st, name=None): return [c for c in st.ghost["calls"].l if name is None or c[0] == name]


def names(st): return [c[0] for c in st.ghost["calls"].l]


def vname(ex, cls, slot):
    """method name behind a virtual table slot"""
    d = ex.demangle(vfun(ex, cls, slot))
    return re.sub(r"\(.*", "", d).split("::")[-1]


RANGE = {"i8": (0, 1)}


def rng(kind):
    n = int(kind[1:])
    return RANGE.get(kind, (-2 ** (n - 1), 2 ** (n - 1) - 1))


class Thing:
    """an object of class cls; fields: name -> kind ('i8' flags are 0/1)"""

    def __init__(self, ex, st, cls, fields, name="this", tag=None, unsigned=()):
        self.ex, self.cls, self.fields, self.unsigned = ex, cls, fields, set(unsigned)
        self.o = ex.struct_obj(None, cls, name)
        self.v0 = {}
        for f, k in fields.items():
            nm = (tag + "." if tag else "") + f
            if k == "ptr": continue
            if k == "double": v = z3.Real(nm)
            else:
                v = z3.Int(nm)
                lo, hi = rng(k)
                st.add(And(v >= lo, v <= hi))
            self.v0[f] = v
            ex.setf(st, self.o, f, v, k)

    def this(self): return Ptr(self.o)

    def get(self, st, f):
        v = self.ex.getf(st, self.o, f, self.fields[f])
        return v if self.fields[f] in ("double", "ptr") else zint(v)

    def u(self, v, n=32): return z3.If(v < 0, v + 2 ** n, v)

    def getu(self, st, f): return self.u(self.get(st, f), int(self.fields[f][1:]))

    def u0(self, f): return self.u(self.v0[f], int(self.fields[f][1:]))

    def frame(self, s, changed=(), text="%s does not change"):
        for f, k in self.fields.items():
            if f in changed or k == "ptr": continue
            v = self.get(s, f)
            self.ex.prove(s, (rv(v) == self.v0[f]) if k == "double" else Eq(v, self.v0[f]), text % f, "frame", assume=False)


def external(ex, name, kind, log=True, range_=None, post=None):
    """an external function: the call is recorded, the result is unknown"""
    def h(ex, st, a, x):
        r = 0 if kind is None else ex.fresh(kind, name, st)
        if range_ is not None: st.add(And(r >= range_[0], r <= range_[1]))
        if post: post(st, r)
        if log: note(st, name, a, r)
        return r
    ex.handlers[name] = h
    return h
