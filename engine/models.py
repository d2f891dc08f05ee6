"""Contracts of functions outside the repository: LLVM intrinsics, the C library, the C++ run-time library."""
import re, math
from fractions import Fraction
import z3
from ir import sizeof, I, PTR, DBL, FLT
from vals import *


# ---------------------------------------------------------------- memory blocks
def _conc(x):
    if not isz(x): return x
    s = z3.simplify(x)
    if z3.is_int_value(s): return s.as_long()
    if z3.is_bv_value(s): return s.as_long()
    return x


def region_for(ex, st, p, hint=None):
    o = p.obj
    if not isinstance(o, Obj): return None
    if o.id in st.freed:
        ex.prove(st, False, "no access to freed %s" % o.name, "safety", assume=False)
        raise ex.Infeasible()
    if not o.regions and (o.size is None or isz(o.size)) and hint:
        from exec import Region as _R
        ex.ensure_region(st, o, Ptr(o, p.c, [(hint, z3.Int("_"))], p.tk), min(hint, 8), "ptr" if hint == 8 else "i%d" % (8 * hint))
    if o.regions: return o.regions[0] if len(o.regions) == 1 else None
    return None


def index_in(ex, r, p):
    """element index of a pointer into region r (must be element aligned)"""
    d = p.c - r.start
    if d % r.stride: return None
    idx = d // r.stride
    for s, x in p.terms:
        if s % r.stride:
            # a sum of bytes
            if isz(x) and z3.is_int(x):
                dd, c = linear(z3.simplify(x * s))
                if all((q / r.stride).denominator == 1 for _, q in dd.values()) and (c / r.stride).denominator == 1:
                    x = from_linear({k: (t, q / r.stride) for k, (t, q) in dd.items()}, c / r.stride)
                    idx = idx + x
                    continue
            return None
        idx = idx + (x if s == r.stride else x * (s // r.stride))
    return _conc(idx)


def count_of(ex, r, n):
    """number of elements in n bytes"""
    n = _conc(n)
    if not isz(n):
        return n // r.stride if n % r.stride == 0 else None
    if z3.is_bv(n): return None
    d, c = linear(z3.simplify(n))
    if all((q / r.stride).denominator == 1 for _, q in d.values()) and (c / r.stride).denominator == 1:
        return from_linear({k: (t, q / r.stride) for k, (t, q) in d.items()}, c / r.stride)
    return None


def block_bounds(ex, st, p, n, what, loc):
    o = p.obj
    if not isinstance(o, Obj) or o.size is None or not ex.safety: return
    off = ex.off(p)
    if not isz(off) and not isz(o.size) and not isz(n):
        if 0 <= off and off + n <= o.size: return
        ex.prove(st, False, "%s stays inside %s at %s" % (what, o.name, loc), "safety", assume=False)
        raise ex.Infeasible()
    if ex.mode == "int":
        g = z3.Or(zint(n) == 0, z3.And(zint(off) >= 0, zint(n) >= 0, zint(off) + zint(n) <= zint(o.size)))
    else:
        off, sz, nn = ex.bvc(off, 64), ex.bvc(o.size, 64), ex.bvc(n, 64)
        g = z3.And(z3.ULE(off, sz), z3.ULE(nn, sz - off))
    ex.prove(st, g, "%s stays inside %s at %s" % (what, o.name, loc), "safety")


def copy(ex, st, d, s, n, loc="?"):
    n = _conc(n)
    if not isinstance(d, Ptr): d = ex.dec(d)
    if not isinstance(s, Ptr): s = ex.dec(s)
    if not isz(n) and n == 0: return
    if isinstance(s, Opaque) or isinstance(d, Opaque): raise Unsupported("block copy through an opaque pointer")
    if isinstance(d.obj, SymObj): d = ex.resolve(st, d)
    if isinstance(s.obj, SymObj): s = ex.resolve(st, s)
    if d.obj is None or s.obj is None:
        if isz(n):
            ex.prove(st, zint(n) == 0, "no block copy through a null pointer at %s" % loc, "safety"); return
        ex.nonnull(st, d if d.obj is None else s, loc)
    block_bounds(ex, st, d, n, "block copy (destination)", loc)
    block_bounds(ex, st, s, n, "block copy (source)", loc)
    rs = region_for(ex, st, s)
    rd = region_for(ex, st, d)
    if rs is not None and rd is None: rd = region_for(ex, st, d, rs.stride)
    if rd is not None and rs is None: rs = region_for(ex, st, s, rd.stride)
    if rs is not None and rd is not None and rs.stride == rd.stride:
        i0, j0, cnt = index_in(ex, rd, d), index_in(ex, rs, s), count_of(ex, rs, n)
        if i0 is None or j0 is None or cnt is None: raise Unsupported("unaligned block copy at %s" % loc)
        comps = {}
        for src in (st.arrs, ):
            for k, a in src.items():
                if k[0] == s.obj.id and k[1] == rs.start: comps[k[3]] = a
        for k, a in st.arrs.items():
            if k[0] == d.obj.id and k[1] == rd.start and k[3] not in comps:
                comps[k[3]] = ex.arr_get(st, s.obj, rs, k[3], getattr(a, "kind", "ptr"))
        if not comps:
            if rs.stride not in (1, 2, 4, 8): raise Unsupported("block copy of unseen elements")
            kind = getattr(s.obj, "elem", None) or getattr(d.obj, "elem", None) or ("ptr" if rs.stride == 8 else "i%d" % (8 * rs.stride))
            comps[0] = ex.arr_get(st, s.obj, rs, 0, kind)
        for c, a in comps.items():
            kind = getattr(a, "kind", "ptr")
            old = ex.arr_get(st, d.obj, rd, c, kind)
            lo, hi = zint(i0) if ex.mode == "int" else ex.idx(i0), None
            sh = ex.idx(i0) - ex.idx(j0)
            hi = ex.idx(i0) + ex.idx(cnt)
            lo = ex.idx(i0)

            def g(i, a=a, old=old, lo=lo, hi=hi, sh=sh):
                i = ex.idx(i)
                c = z3.simplify(z3.And(i >= lo, i < hi))
                if z3.is_true(c): return a.get(z3.simplify(i - sh))
                if z3.is_false(c): return old.get(i)
                return ite(c, a.get(z3.simplify(i - sh)), old.get(i))
            na = ArrFn(g); na.kind = kind
            st.arrs[(d.obj.id, rd.start, rd.stride, c)] = na
        return
    if isz(n): raise Unsupported("block copy of symbolic length at %s" % loc)
    # concrete number of bytes, cells
    if rs is None and rd is None and isinstance(s.obj, Obj) and isinstance(d.obj, Obj) and not s.terms and not d.terms:
        cells = st.cells(s.obj)
        lay = layout(ex, st, s, n) or layout(ex, st, d, n)
        items = []
        done = set()
        if lay is None or s.obj.typ is None:
            q0 = s.c
            have = sorted((q, y) for q, y in cells.items() if q0 <= q < q0 + n)
            for q, y in have:
                if q + y[0] > q0 + n: lay2 = None; break
                items.append((q - q0, y[0], y[1], y[2]))
                done |= set(range(q - q0, q - q0 + y[0]))
        if len(done) < n:
            if lay is None:
                if ex.mode == "bv":
                    lay = [(k, I(8)) for k in range(n)]
                elif s.obj.kind in ("stack",) and not s.obj.lazy:
                    lay = []      # copying uninitialised bytes: destination unknown
                    dc = st.cells(d.obj, True)
                    for k in [k for k in dc if d.c <= k < d.c + n and (k - d.c) not in done]: del dc[k]
                else: raise Unsupported("block copy of %d untyped bytes of %s at %s" % (n, s.obj.name, loc))
            for off, lt in lay:
                if off in done: continue
                v = ex.load(st, Ptr(s.obj, s.c + off), lt, loc)
                items.append((off, sizeof(lt), None, (lt, v)))
        for off, sz, kind, v in items:
            if kind is None: ex.store(st, Ptr(d.obj, d.c + off), v[0], v[1], loc)
            else:
                if d.obj.readonly: ex.prove(st, False, "%s is not written (block copy at %s)" % (d.obj.name, loc), "frame", assume=False)
                ex.store_cell(st, d.obj, d.c + off, kind, sz, v)
        return
    # element by element through typed loads
    if rs is not None or rd is not None:
        r = rs or rd
        ref = s if rs is not None else d
        es = r.stride if r.stride in (1, 2, 4, 8) else 8
        kind = None
        for k, a in st.arrs.items():
            if k[0] == ref.obj.id: kind = getattr(a, "kind", None); es = {"double": 8, "ptr": 8, "float": 4}.get(kind) or int(kind[1:]) // 8
        if kind is None: kind = getattr(ref.obj, "elem", None)
        if kind is None: raise Unsupported("block copy between array and object at %s" % loc)
        lt = {"double": DBL, "float": FLT, "ptr": PTR}.get(kind) or I(int(kind[1:]))
        if n % es or n // es > 64: raise Unsupported("block copy size at %s" % loc)
        vs = [ex.load(st, Ptr(s.obj, s.c + k, s.terms, s.tk), lt, loc) for k in range(0, n, es)]
        for k, v in enumerate(vs): ex.store(st, Ptr(d.obj, d.c + k * es, d.terms, d.tk), lt, v, loc)
        return
    # symbolic heap objects: typed by the pointer
    lay = layout(ex, st, s, n) or layout(ex, st, d, n)
    if lay is None: raise Unsupported("block copy of heap bytes at %s" % loc)
    tk = s.tk or d.tk
    vs = [(off, lt, ex.load(st, moved(s, off, tk), lt, loc)) for off, lt in lay]
    for off, lt, v in vs: ex.store(st, moved(d, off, tk), lt, v, loc)


def moved(p, off, tk):
    t = p.tk or tk
    if t is not None and t[0] == "S": t = (t[0], t[1], t[2] + off, t[3])
    return Ptr(p.obj, p.c + off, p.terms, t)


def layout(ex, st, p, n):
    """[(offset, scalar type)] for n bytes at p, from the object's type"""
    t = None
    base = 0
    if isinstance(p.obj, Obj) and p.obj.typ is not None and not p.terms:
        t, base = p.obj.typ, p.c
    elif p.tk is not None and p.tk[0] == "S":
        t, base = p.tk[3], p.tk[2]
    if t is None: return None
    r = [(o - base, lt) for o, lt in ex.leaves(t) if base <= o < base + n]
    if not r or r[-1][0] + sizeof(r[-1][1]) > n: return None
    return r


def fill(ex, st, d, b, n, loc):
    n = _conc(n)
    if not isinstance(d, Ptr): d = ex.dec(d)
    if not isz(n) and n == 0: return
    if isinstance(d.obj, SymObj): d = ex.resolve(st, d)
    if d.obj is None: ex.nonnull(st, d, loc)
    block_bounds(ex, st, d, n, "block fill", loc)
    r = region_for(ex, st, d)
    o = d.obj
    if isinstance(o, Obj) and r is None and isinstance(o.size, z3.ExprRef):
        r = region_for(ex, st, d, getattr(o, "stride", 1))
    if r is not None:
        i0, cnt = index_in(ex, r, d), count_of(ex, r, n)
        if i0 is None or cnt is None: raise Unsupported("unaligned block fill at %s" % loc)
        comps = {k[3]: getattr(a, "kind", "ptr") for k, a in st.arrs.items() if k[0] == o.id and k[1] == r.start}
        if not comps:
            comps = {0: getattr(o, "elem", None) or ("i%d" % (8 * r.stride) if r.stride in (1, 2, 4) else None)}
            if comps[0] is None:
                if r.stride == 8: comps = {0: "i64"}
                else: raise Unsupported("block fill of untyped array at %s" % loc)
        if isz(b): raise Unsupported("block fill with symbolic byte")
        for c, kind in comps.items():
            old = ex.arr_get(st, o, r, c, kind)
            if b == 0: v = Fraction(0) if kind in ("double", "float") and ex.fmode == "real" else 0
            elif kind == "i8": v = b
            else: raise Unsupported("block fill pattern")
            lo, hi = ex.idx(i0), ex.idx(i0) + ex.idx(cnt)

            def g(i, old=old, lo=lo, hi=hi, v=v):
                i = ex.idx(i)
                return ite(z3.simplify(z3.And(i >= lo, i < hi)), zint(v, old.get(i)), old.get(i))
            na = ArrFn(g); na.kind = kind
            st.arrs[(o.id, r.start, r.stride, c)] = na
        return
    if isz(n) and isinstance(o, Obj) and not d.terms and d.c == 0 and not o.regions and not st.cells(o) and b == 0 and not [k for k in st.arrs if k[0] == o.id]:
        # an untyped block nobody has looked at yet: its content stays arbitrary (weaker than zero)
        if o.readonly: ex.prove(st, False, "%s is not written (block fill at %s)" % (o.name, loc), "frame", assume=False)
        return
    if isz(n) or not isinstance(o, Obj) or d.terms: raise Unsupported("block fill at %s" % loc)
    if o.readonly: ex.prove(st, False, "%s is not written (block fill at %s)" % (o.name, loc), "frame", assume=False)
    if isz(b):
        if n <= 64:
            for k in range(n): ex.store_cell(st, o, d.c + k, "i8", 1, b)
            return
        raise Unsupported("block fill with symbolic byte")
    lay = layout(ex, st, d, n)
    if lay is not None and b == 0:
        for off, lt in lay: ex.store(st, Ptr(o, d.c + off), lt, ex.const(("zero",), lt, None), loc)
        return
    if b == 0 and d.c == 0 and (o.size is None or n == o.size) and not st.cells(o):
        o.kind = "zero"; o.lazy = True
        return
    if n <= 4096:
        k = 0
        word = int.from_bytes(bytes([b & 255]) * 8, "little", signed=True)
        while k < n:
            if n - k >= 8: ex.store_cell(st, o, d.c + k, "i64", 8, word); k += 8
            else: ex.store_cell(st, o, d.c + k, "i8", 1, b); k += 1
        return
    raise Unsupported("large block fill at %s" % loc)


# ---------------------------------------------------------------- intrinsics
def intrinsic(ex, st, name, args, x, loc):
    b = name[5:]
    if b.startswith(("dbg.", "lifetime.", "donothing", "assume", "invariant.", "experimental.noalias", "prefetch", "var.annotation")): return None
    if b.startswith("expect"): return args[0]
    if b.startswith("is.constant"): return False
    if b.startswith(("memcpy", "memmove")):
        h = getattr(ex, "raw_copy", None)
        if h is not None: return h(ex, st, args[:3], x)
        copy(ex, st, args[0], args[1], args[2], loc); return None
    if b.startswith("memset"):
        fill(ex, st, args[0], args[1], args[2], loc); return None
    if b.startswith(("stacksave",)): return Opaque("stack")
    if b.startswith(("stackrestore",)): return None
    if b.startswith("trap"): return []
    if b.startswith("eh.typeid.for"): return z3.Int(ex.fresh_name("typeid")) if ex.mode == "int" else z3.BitVec(ex.fresh_name("typeid"), 32)
    if b.startswith("va_"): return None
    m = re.match(r"(fabs|sqrt|floor|ceil|trunc|round|rint|nearbyint|copysign|pow|sin|cos|exp|log|log10|exp2|log2|fmuladd|fma|maxnum|minnum|powi|is\.fpclass)\.", b)
    if m:
        f = m.group(1)
        if f in ("fmuladd", "fma"):
            t = DBL
            return ex.fbin(st, "fadd", t, ex.fbin(st, "fmul", t, args[0], args[1]), args[2])
        if f == "is.fpclass": raise Unsupported(name)
        return math_fn(ex, st, {"maxnum": "fmax", "minnum": "fmin", "nearbyint": "rint"}.get(f, f), args, x)
    m = re.match(r"(smax|smin|umax|umin|abs)\.i(\d+)", b)
    if m:
        t = I(int(m.group(2)))
        k = m.group(1)
        if k == "abs":
            c = ex.icmp(st, "slt", t, args[0], 0)
            return ite(c, ex.binop(st, "sub", t, 0, args[0], (), loc), args[0])
        pred = {"smax": "sgt", "smin": "slt", "umax": "ugt", "umin": "ult"}[k]
        return ite(ex.icmp(st, pred, t, args[0], args[1]), args[0], args[1])
    m = re.match(r"bswap\.i(\d+)", b)
    if m:
        n = int(m.group(1))
        if not isz(args[0]):
            return ex.wrap(st, int.from_bytes((args[0] % (1 << n)).to_bytes(n // 8, "little"), "big"), n)
        if ex.mode != "bv": raise Unsupported("bswap")
        v = args[0]
        return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(n // 8)])
    m = re.match(r"(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)", b)
    if m:
        n = int(m.group(3)); t = I(n)
        r = ex.binop(st, m.group(2), t, args[0], args[1], (), loc)
        if ex.mode == "bv":
            A, B = ex.bvc(args[0], n), ex.bvc(args[1], n)
            ext = z3.ZeroExt if m.group(1) == "u" else z3.SignExt
            op = {"add": lambda a, c: a + c, "sub": lambda a, c: a - c, "mul": lambda a, c: a * c}[m.group(2)]
            ov = z3.simplify(op(ext(n, A), ext(n, B)) != ext(n, ex.bvc(r, n)))
            ov = True if z3.is_true(ov) else False if z3.is_false(ov) else ov
        else:
            A, B = (ex.uns(st, args[0], n), ex.uns(st, args[1], n)) if m.group(1) == "u" else (args[0], args[1])
            A, B = zint(A), zint(B)
            v = {"add": lambda: A + B, "sub": lambda: A - B, "mul": lambda: A * B}[m.group(2)]()
            lo, hi = (0, (1 << n) - 1) if m.group(1) == "u" else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
            ok = z3.And(v >= lo, v <= hi)
            ov = z3.simplify(z3.Not(ok))
            if ex.known(st, ok): ov = False
            else: ov = True if z3.is_true(ov) else False if z3.is_false(ov) else ov
        return ["agg", x["t"] if "t" in x else None, [r, ov]]
    m = re.match(r"(fshl|fshr)\.i(\d+)", b)
    if m and ex.mode == "bv":
        n = int(m.group(2))
        A, B, C = (ex.bvc(v, n) for v in args)
        cc = z3.Concat(A, B)
        sh = z3.ZeroExt(n, z3.URem(C, z3.BitVecVal(n, n)))
        r = z3.Extract(2 * n - 1, n, cc << sh) if m.group(1) == "fshl" else z3.Extract(n - 1, 0, z3.LShR(cc, sh))
        return z3.simplify(r)
    m = re.match(r"(ctlz|cttz|ctpop)\.i(\d+)", b)
    raise Unsupported("intrinsic " + name)


# ---------------------------------------------------------------- mathematics
def real_uf(ex, name, *args):
    f = ex.uf("m_" + name, *([z3.RealSort()] * (len(args) + 1)))
    return f(*[rv(a) for a in args])


def math_fn(ex, st, f, args, x=None):
    if f.endswith("f") and f not in ("erf",): f = f[:-1] if f[:-1] in _MATH else f
    if ex.fmode == "fp":
        a = args[0]
        R = {"fabs": lambda: z3.fpAbs(a), "sqrt": lambda: z3.fpSqrt(z3.RNE(), a), "floor": lambda: z3.fpRoundToIntegral(z3.RTN(), a),
             "ceil": lambda: z3.fpRoundToIntegral(z3.RTP(), a), "trunc": lambda: z3.fpRoundToIntegral(z3.RTZ(), a),
             "round": lambda: z3.fpRoundToIntegral(z3.RNA(), a), "rint": lambda: z3.fpRoundToIntegral(z3.RNE(), a),
             "fmax": lambda: z3.fpMax(a, args[1]), "fmin": lambda: z3.fpMin(a, args[1])}
        if f in R: return R[f]()
        raise Unsupported(f + " in floating-point mode")
    if ex.fmode != "real": raise Unsupported(f + " in bit mode")
    a = args[0]
    A = rv(a)
    if f == "fabs": return abs(a) if not isz(a) else z3.If(A >= 0, A, -A)
    if f == "sqrt":
        if not isz(a) and a >= 0:
            r = Fraction(a); n, d = math.isqrt(r.numerator), math.isqrt(r.denominator)
            if n * n == r.numerator and d * d == r.denominator: return Fraction(n, d)
        s = real_uf(ex, "sqrt", A)
        st.add(z3.Implies(A >= 0, z3.And(s >= 0, s * s == A)))
        return s
    if f in ("sin", "cos"):
        if not isz(a) and a == 0: return Fraction(0 if f == "sin" else 1)
        s, c = real_uf(ex, "sin", A), real_uf(ex, "cos", A)
        st.add(s * s + c * c == 1)
        return s if f == "sin" else c
    if f == "floor": return z3.ToReal(z3.ToInt(A)) if isz(a) else Fraction(math.floor(a))
    if f == "ceil": return -z3.ToReal(z3.ToInt(-A)) if isz(a) else Fraction(math.ceil(a))
    if f == "trunc": return z3.ToReal(z3.If(A >= 0, z3.ToInt(A), -z3.ToInt(-A))) if isz(a) else Fraction(math.trunc(a))
    if f == "round":
        h = rv(Fraction(1, 2))
        return z3.ToReal(z3.If(A >= 0, z3.ToInt(A + h), -z3.ToInt(-A + h)))
    if f in ("rint", "nearbyint"):
        fl = z3.ToInt(A); d = A - z3.ToReal(fl); h = rv(Fraction(1, 2))
        return z3.ToReal(z3.If(d < h, fl, z3.If(d > h, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))))
    if f == "fmax": return ite(A >= rv(args[1]), A, rv(args[1]))
    if f == "fmin": return ite(A <= rv(args[1]), A, rv(args[1]))
    if f == "copysign":
        B = rv(args[1]); m = z3.If(A >= 0, A, -A)
        ex.assumed.add("copysign from a zero takes the positive sign")
        return z3.If(B >= 0, m, -m)
    if f == "fmod":
        B = rv(args[1])
        q = z3.Int(ex.fresh_name("fmodq")); r = z3.Real(ex.fresh_name("fmod"))
        absB = z3.If(B >= 0, B, -B)
        st.add(z3.Implies(B != 0, z3.And(A == z3.ToReal(q) * B + r, z3.If(A >= 0, z3.And(r >= 0, r < absB), z3.And(r <= 0, -r < absB)))))
        return r
    if f == "pow":
        e = args[1]
        if not isz(e) and Fraction(e).denominator == 1 and 0 <= e <= 8:
            r = rv(1)
            for _ in range(int(e)): r = r * A
            return r
        return real_uf(ex, "pow", A, rv(e))
    if f in ("asin", "acos", "atan2", "atan", "tan", "exp", "log", "log10", "sinh", "cosh", "tanh", "hypot", "cbrt", "exp2", "log2", "powi"):
        return real_uf(ex, f, *[v if not (isz(v) and z3.is_int(v)) else z3.ToReal(v) for v in args])
    raise Unsupported("math function " + f)


_MATH = {"fabs", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "floor", "ceil", "trunc", "round", "rint", "nearbyint", "fmax", "fmin", "fmod",
         "copysign", "pow", "exp", "log", "log10", "sinh", "cosh", "tanh", "hypot", "cbrt"}


def _math(f):
    return lambda ex, st, args, x: math_fn(ex, st, f, args, x)


# ---------------------------------------------------------------- heap
def h_malloc(ex, st, args, x):
    o = ex.new_obj("heap", args[0], None, "heap", lazy=False)
    o.lazy = False
    return Ptr(o)


def h_calloc(ex, st, args, x):
    n = ex.binop(st, "mul", I(64), args[0], args[1], (), "calloc")
    o = ex.new_obj("heap", n, None, "zero")
    return Ptr(o)


def free_obj(ex, st, p, how, loc="?"):
    if isinstance(p, Opaque): return
    if not isinstance(p, Ptr): p = ex.dec(p)
    if isinstance(p.obj, SymObj): p = ex.resolve(st, p)
    if isinstance(p.obj, SymObj):
        nz = z3.simplify(zint(ex.addr(p)) != 0)
        return            # freeing memory we do not track
    if p.obj is None: return
    o = p.obj
    if o.id in st.freed:
        ex.prove(st, False, "%s is freed once" % o.name, "safety", assume=False)
        return
    if p.c or p.terms or o.kind == "stack" or o.kind == "global":
        ex.prove(st, False, "only the start of a heap block is freed (%s)" % o.name, "safety", assume=False)
    st.freed = st.freed | {o.id}


def h_free(ex, st, args, x):
    free_obj(ex, st, args[0], "free")
    return None


def h_realloc(ex, st, args, x):
    p, n = args
    if not isinstance(p, Ptr): p = ex.dec(p)
    if isinstance(p.obj, SymObj): p = ex.resolve(st, p)
    if isinstance(p.obj, SymObj): raise Unsupported("realloc of untracked block")
    o = ex.new_obj("heap", n, None, "heap", lazy=False)
    q = Ptr(o)
    if p.obj is None: return q
    old = p.obj
    if old.regions:
        r = old.regions[0]
        o.regions.append(Region(0, r.stride, count_of(ex, r, n)))
        for attr in ("elem",):
            if hasattr(old, attr): setattr(o, attr, getattr(old, attr))
        for k, a in list(st.arrs.items()):
            if k[0] == old.id: st.arrs[(o.id,) + k[1:]] = a
        if not any(k[0] == old.id for k in st.arrs):
            kind = getattr(old, "elem", "ptr")
            st.arrs[(o.id, 0, r.stride, 0)] = ex.arr_get(st, old, r, 0, kind)
    elif old.size is not None and not isz(old.size) and not isz(n):
        d = st.cells(o, True)
        for k, y in st.cells(old).items():
            if k + y[0] <= n: d[k] = y
        o.lazy = True
    else: raise Unsupported("realloc")
    # only the common prefix is preserved; what lies beyond is never read inside the bounds unless written: reads beyond the old
    # size of the grown part give an unknown value, as the array is total
    st.freed = st.freed | {old.id}
    return q


def h_new(ex, st, args, x):
    o = ex.new_obj("new", args[0], None, "heap", lazy=False)
    return Ptr(o)


# ---------------------------------------------------------------- no-effect calls
def h_opaque(ex, st, args, x):
    t = x.get("t")
    if t is None or t.k == "void": return None
    if t.k == "ptr": return Opaque("ptr")
    if t.k == "i":
        return ex.fresh("i%d" % t.n, "ext", st) if t.n > 1 else z3.Bool(ex.fresh_name("ext"))
    if t.k in ("double", "float"): return ex.fresh(t.k, "ext", st)
    return Opaque("ext")


def h_ret0(ex, st, args, x):
    return args[0] if args else None


def h_throw(ex, st, args, x):
    from exec import Outcome
    return Outcome("throw", st, args[0])


def h_halt(ex, st, args, x):
    from exec import Outcome
    return Outcome("halt", st, None)


def h_memcpy(ex, st, args, x):
    copy(ex, st, args[0], args[1], args[2], "memcpy"); return args[0]


def h_memset(ex, st, args, x):
    b = args[1]
    fill(ex, st, args[0], b if not isz(b) else b, args[2], "memset"); return args[0]


def h_isnan(ex, st, args, x):
    if ex.fmode == "fp": return z3.If(z3.fpIsNaN(args[0]), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
    return 0


def h_isfinite(ex, st, args, x):
    if ex.fmode == "fp": return z3.Not(z3.Or(z3.fpIsNaN(args[0]), z3.fpIsInf(args[0])))
    return True


EXACT = {
    "malloc": h_malloc, "calloc": h_calloc, "free": h_free, "realloc": h_realloc,
    "_Znwm": h_new, "_Znam": h_new, "_ZdlPv": h_free, "_ZdaPv": h_free, "_ZdlPvm": h_free, "_ZdaPvm": h_free,
    "memcpy": h_memcpy, "memmove": h_memcpy, "memset": h_memset,
    "printf": h_opaque, "fprintf": h_opaque, "puts": h_opaque, "fputs": h_opaque, "fputc": h_opaque, "putchar": h_opaque, "fflush": h_opaque, "perror": h_opaque,
    "vfprintf": h_opaque, "fwrite": h_opaque, "strlen": h_opaque, "strerror": h_opaque,
    "message_publish": h_opaque, "message_publish_standalone": h_opaque, "send_hs": h_opaque,
    "__cxa_allocate_exception": lambda ex, st, a, x: Ptr(ex.new_obj("exception", None, None, "heap")), "__cxa_free_exception": h_opaque,
    "__cxa_throw": h_throw, "__cxa_rethrow": h_throw, "__cxa_begin_catch": h_ret0, "__cxa_end_catch": h_opaque, "__cxa_guard_acquire": lambda ex, st, a, x: 1,
    "__cxa_guard_release": h_opaque, "__cxa_atexit": h_opaque, "__clang_call_terminate": h_halt, "_ZSt9terminatev": h_halt, "abort": h_halt, "exit": h_halt,
    "__cxa_pure_virtual": h_halt, "__assert_fail": h_halt,
    "pthread_mutex_lock": h_opaque, "pthread_mutex_unlock": h_opaque,
    "isnan": h_isnan, "__isnan": h_isnan, "_ZSt5isnand": None,
}
for f in _MATH:
    EXACT[f] = _math(f)
    EXACT[f + "f"] = _math(f)


def _lmath(f):
    # lround and friends: the C integer conversion of round / rint
    def h(ex, st, args, x):
        if ex.fmode == "real" and ex.mode == "int":
            v = math_fn(ex, st, f, args, x)
            return z3.simplify(z3.ToInt(v)) if isz(v) else int(v)
        raise Unsupported("l" + f)
    return h


for f in ("round", "rint"):
    for p in ("l", "ll"):
        for q in ("", "f"): EXACT[p + f + q] = _lmath(f)
del EXACT["_ZSt5isnand"]

PAT = [
    (re.compile(r"^std::(fabs|sqrt|sin|cos|tan|asin|acos|atan|atan2|floor|ceil|trunc|round|rint|fmax|fmin|fmod|copysign|pow|exp|log)(f|l)?\((double|float)(, (double|float))?\)"), None),
    (re.compile(r"^(bool )?std::isnan\((double|float)\)"), lambda ex, st, a, x: z3.fpIsNaN(a[0]) if ex.fmode == "fp" else False),
    (re.compile(r"^(bool )?std::isinf\((double|float)\)"), lambda ex, st, a, x: z3.fpIsInf(a[0]) if ex.fmode == "fp" else False),
    (re.compile(r"^(bool )?std::isfinite\((double|float)\)"), h_isfinite),
    (re.compile(r"^std::(__cxx11::)?basic_(string|ostream|stringstream|ostringstream|ios|ofstream|fstream|stringbuf|filebuf|streambuf|iostream)<"), h_opaque),
    (re.compile(r"^(std::basic_ostream<.*>& )?std::operator<< ?<"), h_opaque),
    (re.compile(r"^(std::basic_ostream<.*>& )?std::(endl|flush)<"), h_opaque),
    (re.compile(r"^(bool |std::__cxx11::basic_string<.*> )?std::operator(==|!=|<|\+|>) ?<char"), h_opaque),
    (re.compile(r"^std::(__cxx11::)?to_string\("), h_opaque),
    (re.compile(r"^std::allocator<char>"), h_opaque),
    (re.compile(r"^std::(ostream|string|ios_base|exception|logic_error|runtime_error|domain_error|invalid_argument|out_of_range|length_error|locale)(\[abi:[^\]]*\])?::"), h_opaque),
    (re.compile(r"^std::__throw_"), h_throw),
    (re.compile(r"^std::(abs)\((double|float)\)"), _math("fabs")),
]
_pmath = PAT.pop(0)[0]
_plmath = re.compile(r"^std::l{1,2}(round|rint)f?\((double|float)\)")


def lookup(name, dm):
    h = EXACT.get(name)
    if h is not None: return h
    m = _pmath.match(dm)
    if m: return _math(m.group(1))
    m = _plmath.match(dm)
    if m: return _lmath(m.group(1))
    for rx, h in PAT:
        if rx.search(dm): return h
    return None
