"""Contracts for numeric routines: one specification, used over exact reals by the verifier and over numbers by the native replay."""
import ctypes, random
from fractions import Fraction
from drv import *

DT = ir.T("double")


def A(n): return ir.T("arr", n=n, e=DT)


def new_vec(ex, st, name, n, ro=False, vals=None):
    o = ex.new_obj(name, 8 * n, A(n), "obj")
    vals = vals or [z3.Real("%s%d" % (name, i)) for i in range(n)]
    c = st.cells(o, True)
    for i, v in enumerate(vals): c[8 * i] = (8, "double", v)
    o.readonly = ro
    return o, list(vals)


def get_vec(ex, st, o, n):
    return [ex.load(st, Ptr(o, 8 * i), DT) for i in range(n)]


class Env:
    def __init__(self, old, new, ret, num, sub): self.old, self.new, self.ret, self.num, self.sub = old, new, ret, num, sub

    def sqrt(self, x):
        """only for stating the result of sqrt itself"""
        return math.sqrt(x) if self.num else self.sub.uf("sqrt", z3.RealSort(), z3.RealSort())(rv(x))


import math


class MF:
    """args: ('o'|'i'|'io', n) double arrays; ('s',) double; ('n', lo, hi) int;   post(env) -> [(text, guard, lhs, rhs)] or [(text, guard, bool)]"""

    def __init__(self, name, src, args, post, pre=None, alias=(), ret=None, handlers=None, gen=None, inline_src=(), flags=(), tol=1e-8, cname=None, setup=None, policy="unroll",
                 scope=None, passes="sroa", loopmax=80, timeout=240):
        self.__dict__.update(locals())
        del self.__dict__["self"]

    def contract(self, al=None):
        nm = (self.cname or self.name) + ("" if al is None else " with argument %d = argument %d" % al)

        def run(ctx):
            ex = ctx.exec(mode="int", fmode="real", loop_policy=self.policy, unroll_limit=self.loopmax, handlers=dict(self.handlers or {}))
            ex.assumed.add("floating-point arithmetic is treated as exact real arithmetic")
            st = State()
            objs, old, cargs = [], [], []
            for i, a in enumerate(self.args):
                if a[0] == "s":
                    x = z3.Real("s%d" % i); objs.append(None); old.append(x); cargs.append(x)
                elif a[0] == "n":
                    x = z3.Int("n%d" % i); st.add(z3.And(x >= a[1], x <= a[2])); objs.append(None); old.append(x); cargs.append(x)
                elif a[0] == "c": objs.append(None); old.append(a[1]); cargs.append(a[1])
                elif al is not None and i == al[1] and objs[al[0]] is not None:
                    objs.append(objs[al[0]]); old.append(old[al[0]]); cargs.append(cargs[al[0]])
                elif a[0] == "in1":
                    o = ex.new_obj("a%d" % i, 4 * a[1], ir.T("arr", n=a[1], e=ir.I(32)), "obj")
                    vs = [z3.Int("a%d_%d" % (i, k)) for k in range(a[1])]
                    for k, v in enumerate(vs): st.cells(o, True)[4 * k] = (4, "i32", v)
                    objs.append(o); old.append(vs); cargs.append(Ptr(o))
                else:
                    o, v = new_vec(ex, st, "a%d_" % i, a[1], ro=a[0] == "i")
                    objs.append(o); old.append(v); cargs.append(Ptr(o))
            if al is not None: objs[al[0]].readonly = False
            if self.setup: self.setup(ex, st)
            E0 = Env(old, None, None, False, ex)
            if self.pre:
                for c in self.pre(E0): st.add(zb(c))
            ctx.cover(ex, st, "precondition")
            fn = ex.find_fn(self.name)
            if fn is None:
                d = ex.find_demangled(self.name)
                if not d: raise Unsupported("function %s not found" % self.name)
                fn = ex.find_fn(d[0])
            hit = {}
            for o in ex.call(st, fn, cargs):
                if o.kind != "ret": raise Unsupported("unexpected outcome " + o.kind)
                new = [get_vec(ex, o.st, objs[i], a[1]) if a[0] in ("o", "io") or (al and i in al and a[0] == "i") else
                       [ex.load(o.st, Ptr(objs[i], 4 * k), ir.I(32)) for k in range(a[1])] if a[0] == "in1" else old[i] for i, a in enumerate(self.args)]
                E = Env(old, new, o.val, False, ex)
                for p in self.post(E):
                    g = p[1]
                    if g is False: continue
                    s = o.st
                    if g is not True:
                        s = o.st.fork(); s.add(zb(g))
                        if not ex.feasible(s): continue
                    hit[p[0]] = True
                    goal = p[2] if len(p) == 3 else Eq(p[2] if not isinstance(p[2], (int, Fraction)) else p[2], p[3]) if not is_real(p[2], p[3]) else rv(p[2]) == rv(p[3])
                    ex.prove(s, goal, p[0], assume=False)
                ctx.cover(ex, o.st, "return")
            if not hit: raise Unsupported("no return path of %s" % self.name)
        return Contract(nm, run, [self.src] + list(self.inline_src), [self.name], flags=self.flags, bounded=self.scope, passes=self.passes, timeout=self.timeout)

    def contracts(self):
        return [self.contract()] + [self.contract(a) for a in self.alias]

    # ---- native
    def native(self, lib, rnd):
        al = rnd.choice([None] + list(self.alias))
        fn = getattr(lib, self.name)
        vals, bufs, cargs = [], [], []
        G = self.gen(rnd) if self.gen else None
        sc = 10.0 ** -rnd.randint(1, 5) if rnd.random() < .15 else 1.0
        for i, a in enumerate(self.args):
            if a[0] == "s":
                v = G[i] if G and G[i] is not None else rnd.uniform(-10, 10)
                vals.append(Fraction(v)); bufs.append(None); cargs.append(ctypes.c_double(v)); continue
            if a[0] == "n":
                v = rnd.randint(a[1], a[2]); vals.append(v); bufs.append(None); cargs.append(ctypes.c_int(v)); continue
            if a[0] == "c": vals.append(a[1]); bufs.append(None); cargs.append(ctypes.c_int(a[1])); continue
            if al is not None and i == al[1]:
                vals.append(vals[al[0]]); bufs.append(bufs[al[0]]); cargs.append(cargs[al[0]]); continue
            n = a[1]
            if a[0] == "in1":
                v = G[i] if G and G[i] is not None else [rnd.randint(-3, 6) for _ in range(n)]
                b = (ctypes.c_int * (n + 8))(*([77] * 4 + v + [77] * 4))
                vals.append(list(v)); bufs.append((b, n, 77)); cargs.append(ctypes.byref(b, 16)); continue
            v = G[i] if G and G[i] is not None else [sc * (rnd.uniform(-10, 10) if rnd.random() < .85 else rnd.choice([0.0, 1.0, -1.0, 2.0])) for _ in range(n)]
            b = (ctypes.c_double * (n + 8))(*([12345.678] * 4 + list(v) + [12345.678] * 4))
            vals.append([Fraction(x) for x in v]); bufs.append((b, n, 12345.678)); cargs.append(ctypes.byref(b, 32))
        if self.pre and not all(bool(c) for c in self.pre(Env(vals, None, None, True, None))): return None
        fn.restype = {None: None, "d": ctypes.c_double, "i": ctypes.c_int}[self.ret]
        r = fn(*cargs)
        if isinstance(r, float):
            r = Fraction(r) if math.isfinite(r) else r
        new = []
        desc = "%s(%s)%s" % (self.name, ", ".join(str([float(q) for q in v]) if isinstance(v, list) else str(float(v)) for v in vals), "" if al is None else " with argument %d = argument %d" % al)
        for i, a in enumerate(self.args):
            b = bufs[i]
            if b is None: new.append(vals[i]); continue
            b, n, g = b
            if any(b[k] != g for k in list(range(4)) + list(range(n + 4, n + 8))): return desc + ": writes outside argument %d" % i
            out = [b[k] for k in range(4, 4 + n)]
            if a[0] == "i" and al is None and [Fraction(x) for x in out if math.isfinite(x)] != vals[i]: return desc + ": changes its input argument %d" % i
            new.append([Fraction(x) if isinstance(x, float) and math.isfinite(x) else x for x in out])
        E = Env(vals, new, r, True, None)
        try: ps = self.post(E)
        except ZeroDivisionError: return None
        for p in ps:
            if p[1] is False: continue
            if len(p) == 3:
                if not p[2]: return "%s: %s does not hold; outputs %s return %s" % (desc, p[0], [[float(x) for x in o] if isinstance(o, list) else o for o in new], r)
                continue
            l, rr = p[2], p[3]
            if isinstance(l, float) and not math.isfinite(l) or isinstance(rr, float) and not math.isfinite(rr): bad = True
            elif isinstance(l, bool) or isinstance(rr, bool) or isinstance(l, int) and isinstance(rr, int): bad = l != rr
            else: bad = abs(l - rr) > self.tol * (1000 + abs(l) + abs(rr))
            if bad: return "%s: %s: got %s, expected %s" % (desc, p[0], float(l), float(rr))
        return None


def is_real(a, b):
    for x in (a, b):
        if isz(x): return z3.is_real(x)
    return isinstance(a, Fraction) or isinstance(b, Fraction)


def math_native(fns):
    def go(lib, rnd, more):
        n = 0
        while more():
            for f in fns:
                n += 1
                r = f.native(lib, rnd)
                if r: return n, r
        return n, None
    return go


# linear algebra on flat lists
def M(a, i, j): return a[3 * i + j]
def mm(a, b): return [M(a, i, 0) * M(b, 0, j) + M(a, i, 1) * M(b, 1, j) + M(a, i, 2) * M(b, 2, j) for i in range(3) for j in range(3)]
def mt(a): return [M(a, j, i) for i in range(3) for j in range(3)]
def mv(a, v): return [M(a, i, 0) * v[0] + M(a, i, 1) * v[1] + M(a, i, 2) * v[2] for i in range(3)]
def vm(v, a): return mv(mt(a), v)
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def dot(a, b): return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
def det3(m): return dot(m[0:3], cross(m[3:6], m[6:9]))
def eqv(text, l, r, g=True): return [("%s [%d]" % (text, i), g, x, y) for i, (x, y) in enumerate(zip(l, r))]
I3 = [Fraction(1 if i == j else 0) for i in range(3) for j in range(3)]
def qmul(a, b):
    v = cross(a[1:], b[1:])
    return [a[0] * b[0] - dot(a[1:], b[1:])] + [a[0] * b[i + 1] + b[0] * a[i + 1] + v[i] for i in range(3)]
def qconj(a): return [a[0], -a[1], -a[2], -a[3]]
def qmat(q):
    """rotation matrix (active, v' = q v q*) of a unit quaternion; homogeneous of degree 2 elsewhere"""
    w, x, y, z = q
    return [w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y),
            2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x),
            2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]
