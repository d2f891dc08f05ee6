"""Symbolic values: pointers, functional arrays, helpers over z3 terms."""
import z3
from fractions import Fraction


def isz(x): return isinstance(x, z3.ExprRef)


class Unsupported(Exception):
    """the verifier cannot handle this construct: no verdict"""


class Obj:
    """A memory object with its own identity (fixed address)."""
    _n = 0

    def __init__(self, name, size=None, typ=None, kind="obj", cls=None, lazy=True):
        Obj._n += 1
        self.id = Obj._n
        self.name, self.size, self.typ, self.kind, self.cls = name, size, typ, kind, cls
        self.addr = 0x100000000000 + self.id * 0x1000000000
        self.regions = []      # list of Region (static declarations)
        self.lazy = lazy       # uninitialised cells become fresh symbols
        self.const = False
        self.fn = None
        self.readonly = False

    def __repr__(self): return "<%s#%d>" % (self.name, self.id)


class Region:
    """array part of an object: `count` elements of `stride` bytes from byte `start`"""

    def __init__(self, start, stride, count):
        self.start, self.stride, self.count = start, stride, count


class SymObj:
    """what a symbolic (heap) pointer points to; expr is its Int (or BV) address"""
    __slots__ = ("e",)

    def __init__(self, e): self.e = e

    def __repr__(self): return "sym(%s)" % self.e

    def __eq__(self, o): return isinstance(o, SymObj) and self.e.eq(o.e)

    def __hash__(self): return self.e.hash()


class Ptr:
    """obj: None (null / absolute), Obj, SymObj.   offset = c + sum(stride*idx)"""
    __slots__ = ("obj", "c", "terms", "tk", "vt")

    def __init__(self, obj, c=0, terms=(), tk=None, vt=None):
        self.obj, self.c, self.terms, self.tk, self.vt = obj, c, tuple(terms), tk, vt

    def __repr__(self): return "Ptr(%r+%d%s)" % (self.obj, self.c, "".join("+%d*%s" % t for t in self.terms))

    def same(self, o):
        if not isinstance(o, Ptr) or self.c != o.c or len(self.terms) != len(o.terms): return False
        if not (self.obj is o.obj or (isinstance(self.obj, SymObj) and self.obj == o.obj)): return False
        for (a, x), (b, y) in zip(self.terms, o.terms):
            if a != b or not same(x, y): return False
        return True


NULL = Ptr(None, 0)


class VTab:
    """the vtable of the object at `p` (dynamic type unknown)"""

    def __init__(self, p, slot=None): self.p, self.slot = p, slot

    def __repr__(self): return "vtab(%r)[%r]" % (self.p, self.slot)


class Opaque:
    """a value nothing may depend on"""

    def __init__(self, why="opaque"): self.why = why

    def __repr__(self): return "<%s>" % self.why


def same(a, b):
    if a is b: return True
    if isinstance(a, Ptr): return a.same(b)
    if isz(a): return isz(b) and a.eq(b)
    if isz(b): return False
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) != type(b): return False
    if isinstance(a, (VTab, Opaque)): return False
    return a == b


# ------------------------------------------------------------- functional arrays
class Arr:
    """base array: an uninterpreted function of the index"""

    def __init__(self, name, dom, rng):
        self.name = name
        self.f = z3.Function(name, dom, rng)
        self.rng = rng

    def get(self, i):
        return self.f(i)


class ArrStore:
    def __init__(self, parent, idx, val):
        self.parent, self.idx, self.val = parent, idx, val
        self.memo = {}

    def get(self, i):
        k = i if not isz(i) else i.get_id()
        m = self.memo.get(k)
        if m is not None: return m[0]
        c = eqs(i, self.idx)
        if c is True: r = self.val
        elif c is False: r = self.parent.get(i)
        else: r = ite(c, self.val, self.parent.get(i))
        self.memo[k] = (r, i)
        return r


class ArrFn:
    """array given by a Python function idx -> value"""

    def __init__(self, fn): self.fn = fn

    def get(self, i): return self.fn(i)


def eqs(a, b):
    """equality, decided syntactically when possible"""
    if not isz(a) and not isz(b): return a == b
    if isz(a) and isz(b) and a.eq(b): return True
    d = z3.simplify(zint(a, b) == zint(b, a))
    if z3.is_true(d): return True
    if z3.is_false(d): return False
    return d


def zint(a, like=None):
    """python number -> z3 term of the sort of `like` (Int by default)"""
    if isz(a): return a
    if isinstance(a, bool): return z3.BoolVal(a)
    if like is not None and isz(like):
        s = like.sort()
        if s.kind() == z3.Z3_BV_SORT: return z3.BitVecVal(a, s.size())
        if s.kind() == z3.Z3_REAL_SORT: return rv(a)
        if s.kind() == z3.Z3_FLOATING_POINT_SORT: return z3.FPVal(a, s)
    if isinstance(a, Fraction): return rv(a)
    return z3.IntVal(a)


def rv(a):
    if isz(a): return a
    f = Fraction(a)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)


def ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if same(a, b): return a
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
        return z3.If(c, zb(a), zb(b))
    return z3.If(c, zint(a, b), zint(b, a))


def zb(x):
    if isz(x): return x
    return z3.BoolVal(bool(x))


def And(*xs):
    r = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if x is True: continue
        if x is False: return False
        r.append(x)
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(*r)


def Or(*xs):
    r = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if x is False: continue
        if x is True: return True
        r.append(x)
    if not r: return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def Not(x):
    if x is True: return False
    if x is False: return True
    return z3.Not(x)


def Implies(a, b):
    if a is False or b is True: return True
    if a is True: return b
    if b is False: return Not(a)
    return z3.Implies(a, b)


def Forall(vs, body, pats=None):
    if body is True: return True
    if body is False: return z3.BoolVal(False)
    return z3.ForAll(vs, body, patterns=pats or [])


def Eq(a, b):
    if not isz(a) and not isz(b): return a == b
    if isz(a) and isz(b) and a.eq(b): return True
    return zint(a, b) == zint(b, a)


def linear(e):
    """z3 Int/Real term -> ({atom_id: (atom, coeff)}, const) or None"""
    if not isz(e): return {}, Fraction(e)
    if z3.is_int_value(e): return {}, Fraction(e.as_long())
    if z3.is_rational_value(e): return {}, Fraction(e.numerator_as_long(), e.denominator_as_long())
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
        d, c = linear(e.arg(0)); d = dict(d)
        sg = 1 if k == z3.Z3_OP_ADD else -1
        for i in range(1, e.num_args()):
            d2, c2 = linear(e.arg(i))
            c += sg * c2
            for a, (t, q) in d2.items():
                o = d.get(a, (t, 0))[1]
                d[a] = (t, o + sg * q)
        return {a: v for a, v in d.items() if v[1] != 0}, c
    if k == z3.Z3_OP_UMINUS:
        d, c = linear(e.arg(0))
        return {a: (t, -q) for a, (t, q) in d.items()}, -c
    if k == z3.Z3_OP_MUL and e.num_args() == 2:
        for i in (0, 1):
            x, y = e.arg(i), e.arg(1 - i)
            if z3.is_int_value(x) or z3.is_rational_value(x):
                q = linear(x)[1]
                d, c = linear(y)
                return {a: (t, q * r) for a, (t, r) in d.items() if q * r != 0}, q * c
    return {e.get_id(): (e, Fraction(1))}, Fraction(0)


def from_linear(d, c, real=False):
    s = None
    for t, q in d.values():
        if q.denominator != 1 and not real: return None
        x = t if q == 1 else (rv(q) if real else z3.IntVal(int(q))) * t
        s = x if s is None else s + x
    if s is None: return Fraction(c) if real else int(c)
    if c != 0: s = s + (rv(c) if real else z3.IntVal(int(c)))
    return s
