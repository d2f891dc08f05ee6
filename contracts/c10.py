"""C10: vector and matrix routines compute their algebraic definition."""
from mathspec import *
MS = "trick_source/trick_utils/math/src/"
DRV = os.path.join(VERIF, "native/mathmacros.c")
Z = Fraction(0)
TINY = Fraction("1.4916681462400413e-154")


def f(name, args, want, alias=(), inl=(), ret=None, **k):
    """want(old) -> list: value of the first argument"""
    return MF(name, MS + name + ".c", args, lambda E: eqv("defined value", E.new[0], want(E.old)), alias=alias, inline_src=[MS + x + ".c" for x in inl], ret=ret, **k)


def mc(name, args, want, alias=(), **k):
    return MF("m_" + name, DRV, args, lambda E: eqv("defined value", E.new[0], want(E.old)), alias=alias, cname=name + " macro", **k)


V, MX, Q = 3, 9, 4
o = lambda n: ("o", n)
i = lambda n: ("i", n)
s = ("s",)
el = lambda g: (lambda a: [g(*xs) for xs in zip(*[x for x in a[1:] if isinstance(x, list)])])
FNS = [
    f("dm_add", [o(9), i(9), i(9)], el(lambda x, y: x + y), alias=[(0, 1), (0, 2)]),
    f("dm_sub", [o(9), i(9), i(9)], el(lambda x, y: x - y), alias=[(0, 1), (0, 2)]),
    f("dm_copy", [o(9), i(9)], lambda a: a[1]),
    f("dm_ident", [o(9)], lambda a: I3),
    f("dm_init", [o(9)], lambda a: [Z] * 9),
    f("dm_scale", [o(9), i(9), s], lambda a: [x * a[2] for x in a[1]], alias=[(0, 1)]),
    f("dm_trans", [o(9), i(9)], lambda a: mt(a[1])),
    f("dmxm", [o(9), i(9), i(9)], lambda a: mm(a[1], a[2])),
    f("dmtxm", [o(9), i(9), i(9)], lambda a: mm(mt(a[1]), a[2]), inl=["dm_trans"]),
    f("dmxmt", [o(9), i(9), i(9)], lambda a: mm(a[1], mt(a[2])), inl=["dm_trans"]),
    f("dmtxmt", [o(9), i(9), i(9)], lambda a: mm(mt(a[1]), mt(a[2])), inl=["dm_trans"]),
    f("dmxv", [o(3), i(9), i(3)], lambda a: mv(a[1], a[2])),
    f("dmtxv", [o(3), i(9), i(3)], lambda a: mv(mt(a[1]), a[2])),
    f("dvxm", [o(3), i(3), i(9)], lambda a: vm(a[1], a[2])),
    f("dv_add", [o(3), i(3), i(3)], el(lambda x, y: x + y), alias=[(0, 1), (0, 2)]),
    f("dv_sub", [o(3), i(3), i(3)], el(lambda x, y: x - y), alias=[(0, 1), (0, 2)]),
    f("dv_copy", [o(3), i(3)], lambda a: a[1]),
    f("dv_cross", [o(3), i(3), i(3)], lambda a: cross(a[1], a[2])),
    f("dv_init", [o(3)], lambda a: [Z] * 3),
    f("dv_scale", [o(3), i(3), s], lambda a: [x * a[2] for x in a[1]], alias=[(0, 1)]),
    f("dv_store", [o(3), s], lambda a: [a[1]] * 3),
    f("dv_skew", [o(9), i(3)], lambda a: [Z, -a[1][2], a[1][1], a[1][2], Z, -a[1][0], -a[1][1], a[1][0], Z]),
    f("dvxv_add", [("io", 3), i(3), i(3)], lambda a: [x + y for x, y in zip(a[0], cross(a[1], a[2]))]),
    f("dvxv_sub", [("io", 3), i(3), i(3)], lambda a: [x - y for x, y in zip(a[0], cross(a[1], a[2]))]),
    MF("dv_dot", MS + "dv_dot.c", [i(3), i(3)], lambda E: [("defined value", True, E.ret, dot(E.old[0], E.old[1]))], ret="d"),
    MF("dv_mag", MS + "dv_mag.c", [i(3)], lambda E: [("square of the result", True, E.ret * E.ret, dot(E.old[0], E.old[0])), ("not negative", True, E.ret >= 0)], ret="d"),
    MF("dv_norm", MS + "dv_norm.c", [o(3), i(3)], lambda E: norm_post(E, 0), alias=[(0, 1)]),
]


def norm_post(E, lim):
    v, n = E.old[1], E.new[0]
    sq = dot(v, v)
    big, small = sq > lim * lim, sq <= lim * lim
    r = [("unit length", big, dot(n, n), Fraction(1)), ("same direction", big, dot(n, v) > 0 if not E.num else (not big or dot(n, v) > 0))]
    r += eqv("parallel", cross(n, v), [Z, Z, Z], big)
    r += eqv("zero for a zero vector", n, [Z, Z, Z], small)
    if E.num: r = [x for x in r if x[1] is True or x[1] == True]
    return r


def inv_post(symm):
    def post(E):
        m, n = E.old[1], E.new[0]
        d = det3(m)
        if E.num and d != 0 and abs(d) < Fraction(1, 500) * max(abs(x) for x in m) ** 3: return []
        if E.num: return eqv("inverse times matrix", mm(n, m), I3) + [("success", True, E.ret, 0)] if d != 0 else [("singular is refused", True, E.ret, 16)]
        return eqv("inverse times matrix", mm(n, m), I3, d != 0) + [("success is returned", d != 0, E.ret, 0), ("a singular matrix is refused", d == 0, E.ret, 16)]
    return post


def gsym(r):
    a = [r.uniform(-5, 5) for _ in range(6)]
    sc = 10.0 ** r.randint(-5, 0)
    a = [sc * x for x in a]
    if r.random() < .2: a = [1.0, 2.0, 3.0, 4.0, 6.0, 9.0]
    return [None, [a[0], a[1], a[2], a[1], a[3], a[4], a[2], a[4], a[5]]]


def ginv(r):
    if r.random() < .3: return [None, [1.0, 2.0, 3.0, 2.0, 4.0, 6.0, r.uniform(-3, 3), 1.0, 0.0]]
    return None


FNS += [
    MF("dm_invert", MS + "dm_invert.c", [o(9), i(9)], inv_post(False), ret="i", gen=ginv, tol=1e-7),
    MF("dm_invert_symm", MS + "dm_invert_symm.c", [o(9), i(9)], inv_post(True), ret="i", gen=gsym, tol=1e-7,
       pre=lambda E: [E.old[1][1] == E.old[1][3], E.old[1][2] == E.old[1][6], E.old[1][5] == E.old[1][7]]),
]


def ortho_post(E):
    m, n, ax, nx = E.old[0], E.new[0], E.old[1][0], E.new[1][0]
    r = []
    rows = lambda a: [a[0:3], a[3:6], a[6:9]]
    for k in range(3):
        g = ax == k
        if E.num and not g: continue
        a, b = (k + 1) % 3, (k + 2) % 3
        r += eqv("axis %d: the forfeited row is the cross product of the others" % k, rows(n)[k], cross(rows(n)[a], rows(n)[b]), g)
        for q in (a, b):
            r += [("axis %d: row %d has unit length" % (k, q), g, dot(rows(n)[q], rows(n)[q]), Fraction(1))]
            r += eqv("axis %d: row %d keeps its direction" % (k, q), cross(rows(n)[q], rows(m)[q]), [Z] * 3, g)
            r += [("axis %d: row %d is not flipped" % (k, q), g, dot(rows(n)[q], rows(m)[q]) > 0)]
        r += [("axis %d: the next axis follows" % k, g, nx, (k + 1) % 3)]
    return r


def bigrow(E, v):
    one = Fraction(1, 100)
    return [dot(v, v) >= one] + [Or(x == 0, x >= TINY, x <= -TINY) if not E.num else (x == 0 or abs(x) >= TINY) for x in v]


FNS += [MF("dm_orthonormal", MS + "dm_orthonormal.c", [("io", 9), ("in1", 1)], ortho_post, passes=FOLD,
           pre=lambda E: bigrow(E, E.old[0][0:3]) + bigrow(E, E.old[0][3:6]) + bigrow(E, E.old[0][6:9]) + [E.old[1][0] >= 0, E.old[1][0] <= 2])]

FNS += [
    mc("V_INIT", [o(3)], lambda a: [Z] * 3), mc("V_STORE", [o(3), s], lambda a: [a[1]] * 3), mc("V_COPY", [o(3), i(3)], lambda a: a[1]),
    mc("V_ADD", [o(3), i(3), i(3)], el(lambda x, y: x + y), alias=[(0, 1), (0, 2)]), mc("V_SUB", [o(3), i(3), i(3)], el(lambda x, y: x - y), alias=[(0, 1), (0, 2)]),
    mc("V_SCALE", [o(3), i(3), s], lambda a: [x * a[2] for x in a[1]], alias=[(0, 1)]),
    MF("m_V_MAG", DRV, [i(3)], lambda E: [("square of the result", True, E.ret * E.ret, dot(E.old[0], E.old[0])), ("not negative", True, E.ret >= 0)], ret="d", cname="V_MAG macro", passes=FOLD,
       pre=lambda E: bigrow(E, E.old[0])[1:]),
    MF("m_V_NORM", DRV, [o(3), i(3)], lambda E: norm_post(E, Fraction("1.0e-12")), cname="V_NORM macro", passes=FOLD, pre=lambda E: bigrow(E, E.old[1])[1:]),
    mc("V_SKEW", [o(9), i(3)], lambda a: [Z, -a[1][2], a[1][1], a[1][2], Z, -a[1][0], -a[1][1], a[1][0], Z]),
    MF("m_V_DOT", DRV, [i(3), i(3)], lambda E: [("defined value", True, E.ret, dot(E.old[0], E.old[1]))], ret="d", cname="V_DOT macro"),
    mc("V_OUTER", [o(9), i(3)], lambda a: [x * y for x in a[1] for y in a[1]]),
    mc("V_CROSS", [o(3), i(3), i(3)], lambda a: cross(a[1], a[2])),
    mc("VxV_ADD", [("io", 3), i(3), i(3)], lambda a: [x + y for x, y in zip(a[0], cross(a[1], a[2]))]),
    mc("VxV_SUB", [("io", 3), i(3), i(3)], lambda a: [x - y for x, y in zip(a[0], cross(a[1], a[2]))]),
    mc("VxM", [o(3), i(3), i(9)], lambda a: vm(a[1], a[2])),
    mc("V_ADD3", [o(3), i(3), i(3), i(3)], el(lambda x, y, z: x + y + z), alias=[(0, 1)]),
    mc("V_DECR", [("io", 3), i(3)], lambda a: [x - y for x, y in zip(a[0], a[1])]), mc("V_INCR", [("io", 3), i(3)], lambda a: [x + y for x, y in zip(a[0], a[1])]),
    mc("V_NEGATE", [o(3), i(3)], lambda a: [-x for x in a[1]], alias=[(0, 1)]),
    mc("VxS_ADD", [("io", 3), i(3), s], lambda a: [x + y * a[2] for x, y in zip(a[0], a[1])]), mc("VxS_SUB", [("io", 3), i(3), s], lambda a: [x - y * a[2] for x, y in zip(a[0], a[1])]),
    MF("m_V_ZERO_SMALL", DRV, [("io", 3), s], lambda E: [x for k in range(3) for x in (
        ("small elements become zero", And(E.old[0][k] < E.old[1], -E.old[0][k] < E.old[1]), E.new[0][k], Z),
        ("other elements are kept", Or(E.old[0][k] >= E.old[1], -E.old[0][k] >= E.old[1]), E.new[0][k], E.old[0][k])) if x[1] is not False], cname="V_ZERO_SMALL macro"),
    mc("M_INIT", [o(9)], lambda a: [Z] * 9), mc("M_IDENT", [o(9)], lambda a: I3), mc("M_COPY", [o(9), i(9)], lambda a: a[1]), mc("M_TRANS", [o(9), i(9)], lambda a: mt(a[1])),
    mc("M_ADD", [o(9), i(9), i(9)], el(lambda x, y: x + y), alias=[(0, 1), (0, 2)]), mc("M_SUB", [o(9), i(9), i(9)], el(lambda x, y: x - y), alias=[(0, 1), (0, 2)]),
    mc("MxV", [o(3), i(9), i(3)], lambda a: mv(a[1], a[2])), mc("MtxV", [o(3), i(9), i(3)], lambda a: mv(mt(a[1]), a[2])),
    mc("MxSCALAR", [o(9), i(9), s], lambda a: [x * a[2] for x in a[1]], alias=[(0, 1)]),
    mc("MxM", [o(9), i(9), i(9)], lambda a: mm(a[1], a[2])), mc("MtxM", [o(9), i(9), i(9)], lambda a: mm(mt(a[1]), a[2])),
    mc("MxMt", [o(9), i(9), i(9)], lambda a: mm(a[1], mt(a[2]))), mc("MtxMt", [o(9), i(9), i(9)], lambda a: mm(mt(a[1]), mt(a[2]))),
    mc("MxMxV", [o(3), i(9), i(9), i(3)], lambda a: mv(mm(a[1], a[2]), a[3])),
]


# ---- n x n routines (arrays of row pointers), every size up to 3
def gen_n(name, args, want, n):
    """args: 'P' out matrix, 'M' in matrix, 'v'/'w' in/out vector"""
    def run(ctx):
        ex = ctx.exec(mode="int", fmode="real", loop_policy="unroll", unroll_limit=20)
        ex.assumed.add("floating-point arithmetic is treated as exact real arithmetic")
        st = State()
        objs, vals, ca = [], [], []
        for k, a in enumerate(args):
            if a in "PM":
                rows, vv = [], []
                for r in range(n):
                    ro, v = new_vec(ex, st, "a%d_%d_" % (k, r), n, ro=a == "M"); rows.append(ro); vv.append(v)
                p = ex.new_obj("a%d" % k, 8 * n, ir.T("arr", n=n, e=ir.T("ptr")), "obj"); p.readonly = True
                for r in range(n): st.cells(p, True)[8 * r] = (8, "ptr", Ptr(rows[r]))
                objs.append(rows); vals.append(vv); ca.append(Ptr(p))
            else:
                ro, v = new_vec(ex, st, "a%d_" % k, n, ro=a == "v"); objs.append(ro); vals.append(v); ca.append(Ptr(ro))
        ctx.cover(ex, st, "precondition")
        for o_ in ex.call(st, ex.find_fn(name), ca + ([n, n] if name == "mat_copy" else [n])):
            new = [get_vec(ex, o_.st, r, n) for r in objs[0]] if args[0] == "P" else get_vec(ex, o_.st, objs[0], n)
            w = want(vals, n)
            for r in range(n):
                if args[0] == "P":
                    for c in range(n): ex.prove(o_.st, rv(new[r][c]) == rv(w[r][c]), "element [%d][%d] has its defined value" % (r, c))
                else: ex.prove(o_.st, rv(new[r]) == rv(w[r]), "element [%d] has its defined value" % r)
            ctx.cover(ex, o_.st, "return")
    return Contract("%s(n = %d)" % (name, n), run, [MS + name + ".c"], [name], bounded="size %d (all sizes up to 4 are covered)" % n)


def S(xs):
    r = xs[0]
    for x in xs[1:]: r = r + x
    return r


R = range
GN = [("matxmat", "PMM", lambda a, n: [[S([a[1][r][k] * a[2][k][c] for k in R(n)]) for c in R(n)] for r in R(n)]),
      ("matxtrans", "PMM", lambda a, n: [[S([a[1][r][k] * a[2][c][k] for k in R(n)]) for c in R(n)] for r in R(n)]),
      ("transxmat", "PMM", lambda a, n: [[S([a[1][k][r] * a[2][k][c] for k in R(n)]) for c in R(n)] for r in R(n)]),
      ("transxtrans", "PMM", lambda a, n: [[S([a[1][k][r] * a[2][c][k] for k in R(n)]) for c in R(n)] for r in R(n)]),
      ("matxvec", "wMv", lambda a, n: [S([a[1][r][k] * a[2][k] for k in R(n)]) for r in R(n)]),
      ("transxvec", "wMv", lambda a, n: [S([a[1][k][r] * a[2][k] for k in R(n)]) for r in R(n)]),
      ("mat_trans", "PM", lambda a, n: [[a[1][c][r] for c in R(n)] for r in R(n)]),
      ("mat_copy", "PM", lambda a, n: a[1])]


def gn_native(lib, rnd):
    name, args, want = rnd.choice(GN)
    n = rnd.randint(1, 5)
    vals, ca, keep = [], [], []
    for a in args:
        if a in "PM":
            rows = [(ctypes.c_double * n)(*[rnd.uniform(-5, 5) for _ in R(n)]) for _ in R(n)]
            p = (ctypes.POINTER(ctypes.c_double) * n)(*rows); keep += [rows, p]
            vals.append([list(r) for r in rows]); ca.append(p)
        else:
            v = (ctypes.c_double * n)(*[rnd.uniform(-5, 5) for _ in R(n)]); keep.append(v); vals.append(list(v)); ca.append(v)
    getattr(lib, name)(*ca, *([n, n] if name == "mat_copy" else [n]))
    w = want(vals, n)
    got = [list(r) for r in keep[0]] if args[0] == "P" else list(keep[0])
    for r in R(n):
        for g, x in (zip(got[r], w[r]) if args[0] == "P" else [(got[r], w[r])]):
            if not abs(g - x) < 1e-8: return "%s(n=%d, %s): row %d: got %s, expected %s" % (name, n, vals[1:], r, g, x)


class GNF:
    native = staticmethod(gn_native)


CS = [c for x in FNS for c in x.contracts()] + [gen_n(a, b, c, n) for a, b, c in GN for n in (1, 2, 3, 4)]
SRC = sorted({x.src for x in FNS} | {MS + a + ".c" for a, _, _ in GN})
CHECK = Check("C10", CS, PyNative(math_native(FNS + [GNF]), SRC))
