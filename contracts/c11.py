"""C11: attitude conversions (Euler sequences, matrices, quaternions) agree with each other."""
from mathspec import *
from exec import simplest
import itertools
MS = "trick_source/trick_utils/math/src/"
DRV = os.path.join(VERIF, "native/mathmacros.c")
Z, ONE = Fraction(0), Fraction(1)
SEQ = ["123", "132", "213", "231", "312", "321"]
ENUM = dict(Roll_Pitch_Yaw="123", Roll_Yaw_Pitch="132", Pitch_Yaw_Roll="231", Pitch_Roll_Yaw="213", Yaw_Roll_Pitch="312", Yaw_Pitch_Roll="321")
SING = {s: (1 + 2 * i, 2 + 2 * i) for i, s in enumerate(["123", "132", "213", "231", "312", "321"])}
PI2 = simplest(math.pi / 2)     # the literal, as the verifier reads it



def rot(ax, s, c):
    """coordinate rotation about axis ax (1..3)"""
    o = lambda a, b: 3 * a + b
    r = [Z] * 9
    i = ax - 1; j, k = (i + 1) % 3, (i + 2) % 3
    r[o(i, i)] = ONE; r[o(j, j)] = c; r[o(k, k)] = c; r[o(j, k)] = s; r[o(k, j)] = -s
    return r


def eul(seq, sc):
    m = I3
    for a, (s, c) in zip(seq, sc): m = mm(rot(int(a), s, c), m)
    return m


def equat(seq, hsc):
    q = [ONE, Z, Z, Z]
    for a, (s, c) in zip(seq, hsc):
        e = [c, Z, Z, Z]; e[int(a)] = -s
        q = qmul(e, q)
    return q


def mid(seq):
    """entry of the matrix that is +-sin(middle angle): (index, sign)"""
    m = eul(seq, [(2, 3), (5, 7), (11, 13)])
    for i, x in enumerate(m):
        if abs(x) == 5: return i, (1 if x > 0 else -1)


# ---------------------------------------------------------------- angles to matrix / quaternion
def sincos(E, a):
    if E.num: return Fraction(math.sin(a)), Fraction(math.cos(a))
    R = z3.RealSort()
    return E.sub.uf("m_sin", R, R)(a), E.sub.uf("m_cos", R, R)(a)


def m0_post(seq):
    def post(E):
        sc = [sincos(E, a) for a in E.old[0]]
        return eqv("product of the elementary rotations", E.new[1], eul(seq, sc)) + [("success", True, E.ret, 0)]
    return post


def q0_post(seq):
    def post(E):
        sc = [sincos(E, a / 2) for a in E.old[0]]
        q = E.new[1]
        return eqv("matrix of the quaternion is the product of the elementary rotations", qmat(q), qmat(equat(seq, sc))) + \
            [("unit length", True, sum(x * x for x in q), ONE), ("success", True, E.ret, 0)]
    return post


class NullP: pass


def euler_contract(seq, quat):
    fn = "euler%s%s" % (seq, "_quat" if quat else "")
    src = MS + "deuler_%s%s.c" % (seq, "_quat" if quat else "")

    def mk(ctx):
        H = {"tm_print_error": lambda ex, st, a, x: None}
        ex = ctx.exec(mode="int", fmode="real", loop_policy="unroll", handlers=H)
        ex.assumed.add("floating-point arithmetic is treated as exact real arithmetic")
        return ex

    def args(ex, ao, mo, method, po): return [Ptr(ao), Ptr(mo), method, Ptr(po)] + ([] if quat else [NULL, 0])

    def fwd(ctx):
        ex = mk(ctx); st = State()
        ao, av = new_vec(ex, st, "angle", 3, ro=True)
        mo, _ = new_vec(ex, st, "out", 4 if quat else 9)
        po, pv = new_vec(ex, st, "prev", 3, ro=True)
        R = z3.RealSort(); sn, cs = ex.uf("m_sin", R, R), ex.uf("m_cos", R, R)
        for o in ex.call(st, ex.find_fn(fn), args(ex, ao, mo, 0, po)):
            new = get_vec(ex, o.st, mo, 4 if quat else 9)
            E = Env([av, None], [av, new], o.val, False, ex)
            if quat:
                h = [x for x in av]
                # half angles, whatever way the code writes them
                sc = [(sn(rv(x) * rv(Fraction(1, 2))), cs(rv(x) * rv(Fraction(1, 2)))) for x in h]
                for t, g, l, r in eqv("matrix of the quaternion is the product of the elementary rotations", qmat(new), qmat(equat(seq, sc))): ex.prove(o.st, l == r, t, assume=False)
                ex.prove(o.st, sum(x * x for x in new) == 1, "unit length", assume=False)
            else:
                for t, g, l, r in eqv("product of the elementary rotations", new, eul(seq, [(sn(x), cs(x)) for x in av])): ex.prove(o.st, rv(l) == rv(r), t, assume=False)
            ex.prove(o.st, Eq(o.val, 0), "success is returned", assume=False)
            ctx.cover(ex, o.st, "return")

    def back(method, sing, over=None):
        """angles from a rotation: sing 0 (clear of the singularity), +1, -1; over: matrix entry beyond 1 by d (None, 'tol', 'out')"""
        def run(ctx):
            ex = mk(ctx); st = State()
            ang = [z3.Real("A%d" % i) for i in range(3)]       # the angles the rotation was made of
            po, prev = new_vec(ex, st, "prev", 3, ro=True)
            R = z3.RealSort()
            sn, cs = ex.uf("m_sin", R, R), ex.uf("m_cos", R, R)
            half = Fraction(1, 2)
            if quat:
                hs = [(sn(a * rv(half)), cs(a * rv(half))) for a in ang]
                if sing:
                    r = z3.Real("sqrt_half"); ex.sq_rules.append((r, rv(half))); st.add(And(r * r == rv(half), r > 0))
                    hs[1] = (r, r) if sing > 0 else (-r, r)
                S = [2 * s * c for s, c in hs]; C = [2 * c * c - 1 for s, c in hs]
                if sing: S[1], C[1] = rv(sing), rv(0)
            else:
                S, C = [sn(a) for a in ang], [cs(a) for a in ang]
                if sing: S[1], C[1] = rv(sing), rv(0)
            S2 = z3.Real("S2")
            if not sing:
                ex.canon = [(S[1], S2)]
                # the middle angle stays clear of +-90 degrees
                st.add(And(S2 >= -1, S2 <= 1))
                if method == 1: st.add(And(ang[1] > -PI2 + Fraction("1.001e-6"), ang[1] < PI2 - Fraction("1.001e-6")))
                else: st.add(And(S2 <= 1 - Fraction("1e-6"), S2 >= -1 + Fraction("1e-6")))
            if quat:
                sg = z3.Real("sg"); ex.sq_rules.append((sg, rv(1))); st.add(Or(sg == 1, sg == -1))
                vals = [rv(x) * sg for x in equat(seq, hs)]
            else:
                m = eul(seq, list(zip(S, C)))
                mi, ms = mid(seq)
                m = [x if isz(x) else rv(x) for x in m]
                if not sing: m[mi] = S2 if ms > 0 else -S2
                else: m[mi] = rv(ms * sing)
                if over:
                    d = z3.Real("d"); m[mi] = rv(ms * sing) * (1 + d)
                    tol = Fraction(1 + 1e-15) - 1
                    st.add(And(d > 0, d <= Fraction("1e-15")) if over == "tol" else And(d > Fraction("1.2e-15"), d < 10))
                vals = m
            mo, _ = new_vec(ex, st, "in", len(vals), ro=True, vals=vals)
            ao, _ = new_vec(ex, st, "angle", 3)
            if sing:
                # at the singularity only one combination of the outer angles is determined: find it
                combos = {}
                for sgn in (1, -1):
                    s13, c13 = S[0] * C[2] + sgn * C[0] * S[2], C[0] * C[2] - sgn * S[0] * S[2]
                    combos[sgn] = (s13, c13)

            W = z3.Real("W"); SW, CW = z3.Real("SW"), z3.Real("CW")
            ghost = {}

            def atan2(ex, st, a, x):
                y, xx = rv(a[0]), rv(a[1])
                import poly
                nm = poly.Norm(ex, st, ex.sq_rules)
                if not sing:
                    for i in (0, 2):
                        if nm.equal(y, C[1] * S[i]) and nm.equal(xx, C[1] * C[i]): return ang[i]
                else:
                    for sgn in (1, -1):
                        if nm.equal(y, combos[sgn][0]) and nm.equal(xx, combos[sgn][1]):
                            ghost["c"] = sgn
                            return W
                return z3.Real(ex.fresh_name("atan2"))

            def asin(ex, st, a, x):
                import poly
                v = rv(a[0])
                if sing:
                    if ex.known(st, v == sing) is True: return rv(sing) * rv(PI2)
                    nm = poly.Norm(ex, st, ex.sq_rules)
                    if nm.equal(v, rv(sing)): return rv(sing) * rv(PI2)
                elif ex.known(st, v == S2) is True: return ang[1]
                return z3.Real(ex.fresh_name("asin"))
            ex.handlers["atan2"] = atan2; ex.handlers["asin"] = asin
            if sing and quat:
                ex.canon = [(rv(1), Fraction(1))]
            ctx.cover(ex, st, "precondition")
            n = 0
            for o in ex.call(st, ex.find_fn(fn), args(ex, ao, mo, method, po)):
                n += 1
                new = get_vec(ex, o.st, ao, 3)
                P = lambda g, t: ex.prove(o.st, g, t, assume=False)
                if over == "out":
                    P(Eq(o.val, 13), "a matrix that is no rotation is reported")
                elif not sing:
                    for i in range(3): P(rv(new[i]) == ang[i], "angle %d is recovered" % i)
                    P(Eq(o.val, 0), "success is returned")
                else:
                    P(rv(new[1]) == rv(sing * PI2), "middle angle is %s90 degrees" % ("+" if sing > 0 else "-"))
                    if method == 1:
                        P(rv(new[2]) == 0, "last angle is zero")
                        P(rv(new[0]) == W, "first angle carries the whole rotation")
                        P(Eq(o.val, SING[seq][0 if sing > 0 else 1]), "singularity is reported")
                    else:
                        # rotation by W about the first axis = angles (W -+ prev[2], prev[2])
                        sgn = ghost.get("c", 0)
                        base = W - sgn * prev[2]
                        P(rv(new[2]) == prev[2], "last angle is the previous one")
                        tol = Fraction("0.0314159265358979"); tp = Fraction("6.28318530717958647692")
                        tw = z3.Real("two_pi")
                        d = base - prev[0]
                        P(Or(new[0] == base, And(new[0] - base <= tp + Fraction("1e-14"), new[0] - base >= tp - Fraction("1e-14")), And(base - new[0] <= tp + Fraction("1e-14"), base - new[0] >= tp - Fraction("1e-14"))),
                          "first angle completes the rotation up to a full turn")
                        P(z3.Implies(And(d - tp < tol - Fraction("1e-13"), tp - d < tol - Fraction("1e-13")), new[0] - prev[0] < Fraction("0.05")), "a turn too many is taken off")
                        P(z3.Implies(And(d + tp < tol - Fraction("1e-13"), -tp - d < tol - Fraction("1e-13")), prev[0] - new[0] < Fraction("0.05")), "a turn too few is added")
                        P(z3.Implies(And(d < 6, d > -6), new[0] == base), "no turn is added otherwise")
                        P(Eq(o.val, 0), "success is returned")
                    P(z3.BoolVal("c" in ghost), "the determined combination of the outer angles is used")
                ctx.cover(ex, o.st, "return")
            if not n: raise Unsupported("no return path")
        return run
    cs = [Contract("%s(make %s)" % (fn, "quaternion" if quat else "matrix"), fwd, [src], [fn])]
    for method in (1, 2):
        for sing in (0, 1, -1):
            cs.append(Contract("%s(method %d%s)" % (fn, method, {0: "", 1: ", at +90 degrees", -1: ", at -90 degrees"}[sing]), back(method, sing), [src], [fn]))
    if not quat:
        for sing in (1, -1):
            for ov in ("tol", "out"):
                cs.append(Contract("%s(method 1, entry beyond %+d, %s)" % (fn, sing, "within tolerance" if ov == "tol" else "not a rotation"), back(1, sing, ov), [src], [fn]))
    return cs


CONTRACTS = [c for s in SEQ for q in (False, True) for c in euler_contract(s, q)]


# ---------------------------------------------------------------- sequence dispatch
def dispatch(quat):
    fn = "euler_quat" if quat else "euler_matrix"

    def run(ctx):
        enum = dict(Roll_Pitch_Yaw=0, Roll_Yaw_Pitch=1, Pitch_Yaw_Roll=2, Pitch_Roll_Yaw=3, Yaw_Roll_Pitch=4, Yaw_Pitch_Roll=5)
        vals = read_enum()
        H = {}
        for s in SEQ:
            def h(ex, st, a, x, s=s):
                r = z3.Int("ret" + s)
                st.ghost["called"] = st.ghost.get("called", ()) + ((s, a[0], a[1], a[2]),)
                return r
            H["euler%s%s" % (s, "_quat" if quat else "")] = h
        ex = ctx.exec(mode="int", fmode="real", handlers=H)
        st = State()
        ao, _ = new_vec(ex, st, "angle", 3); mo, _ = new_vec(ex, st, "m", 9)
        method, seq = z3.Int("method"), z3.Int("seq")
        st.add(And(method >= -2**31, method < 2**31, seq >= 0, seq < 2**32))
        ctx.cover(ex, st, "precondition")
        done = set()
        for o in ex.call(st, ex.find_fn(fn), [Ptr(ao), Ptr(mo), method, seq]):
            c = o.st.ghost.get("called", ())
            for e, v in vals.items():
                s2 = o.st.fork(); s2.add(seq == v)
                if not ex.feasible(s2): continue
                done.add(e)
                w = ENUM[e]
                ok = len(c) == 1 and c[0][0] == w and isinstance(c[0][1], Ptr) and c[0][1].obj is ao and isinstance(c[0][2], Ptr) and c[0][2].obj is mo
                ex.prove(s2, z3.BoolVal(ok), "%s selects the %s conversion on the caller's arguments" % (e, w), assume=False)
                if ok:
                    ex.prove(s2, Eq(c[0][3], method), "%s passes the method on" % e, assume=False)
                    ex.prove(s2, Eq(o.val, z3.Int("ret" + w)), "%s returns the conversion's result" % e, assume=False)
            s2 = o.st.fork(); s2.add(And(*[seq != v for v in vals.values()]))
            if ex.feasible(s2):
                ex.prove(s2, And(z3.BoolVal(not c), Eq(o.val, 14)), "an unknown sequence is refused", assume=False)
            ctx.cover(ex, o.st, "return")
        ex.prove(st, z3.BoolVal(len(done) == 6), "all sequences are handled", assume=False)
    return Contract(fn, run, [MS + fn + ".c"], [fn])


def read_enum():
    t = open(os.path.join(REPO, "include/trick/reference_frame.h")).read()
    import re
    m = re.search(r"enum\s*\{([^}]*Roll_Pitch_Yaw[^}]*)\}", t)
    body = re.sub(r"/\*.*?\*/|//[^\n]*", "", m.group(1), flags=re.S)
    v, r = 0, {}
    for e in body.split(","):
        e = e.strip()
        if not e: continue
        if "=" in e: e, n = [x.strip() for x in e.split("=")]; v = int(n, 0)
        r[e] = v; v += 1
    return r


CONTRACTS += [dispatch(False), dispatch(True)]

# ---------------------------------------------------------------- quaternions
V, Q = 3, 4
o = lambda n: ("o", n)
i = lambda n: ("i", n)
HALF = Fraction(1, 2)


def mc(name, args, want, alias=(), **k):
    return MF("m_" + name, DRV, args, lambda E: eqv("defined value", E.new[0], want(E.old)), alias=alias, cname=name + " macro", **k)


def n2(q): return sum(x * x for x in q)


def nrm_post(sign):
    def post(E):
        a, b = E.old[1], E.new[0]
        r = []
        # parallel
        for j in range(4):
            for k in range(j): r.append(("parallel [%d,%d]" % (j, k), True, a[j] * b[k], a[k] * b[j]))
        if sign:
            r.append(("the scalar part is not negative", True, b[0] >= 0))
            r.append(("the direction is kept or reversed", True, Or(*[x != 0 for x in b]) if not E.num else any(b)))
        else:
            d = sum(x * y for x, y in zip(a, b))
            r.append(("the direction is kept", True, d > 0))
        if E.num: r.append(("unit length", True, abs(n2(b) - 1) < Fraction("1e-12")))
        return r
    return post


def norm_len(fn):
    """|q|^2 within 1e-13 of 1: exact beyond the threshold, by the error of the first-order formula within"""
    def run(ctx):
        ex = ctx.exec(mode="int", fmode="real")
        st = State()
        ao, a = new_vec(ex, st, "q", 4, ro=True)
        bo, _ = new_vec(ex, st, "out", 4)
        N = z3.Real("N"); st.add(N > Fraction("1e-30")); st.add(N == n2(a))
        ex.canon = [(n2(a), N)]
        ctx.cover(ex, st, "precondition")
        for o in ex.call(st, ex.find_fn(fn), [Ptr(bo), Ptr(ao)]):
            b = get_vec(ex, o.st, bo, 4)
            c = z3.Real("coef")
            # every component is the input scaled by one coefficient
            k = z3.Real("k")
            s2 = o.st
            B = z3.Real("B")
            # b = coef * a is stated component-wise through the first factor
            f = factor(b[0], a[0])
            if f is None: raise Unsupported("output is not written as a multiple of the input")
            for j in range(4): ex.prove(o.st, rv(b[j]) == rv(f) * a[j], "component %d is scaled" % j, assume=False)
            s3 = State(); s3.pc = [p for p in o.st.pc if not mentions(p, a) or mentions_only(p, a[:1])]
            s3.add(N > 0)
            g = rv(f) * rv(f) * N - 1
            ex.prove(s3, And(g < Fraction("1e-13"), g > -Fraction("1e-13")), "squared length within 1e-13 of 1", assume=False)
            ctx.cover(ex, o.st, "return")
    return Contract(fn + "(length)", run, [MS + fn + ".c"], [fn])


def mentions(p, vs):
    ids = {v.get_id() for v in vs}
    seen = set()

    def go(t):
        if t.get_id() in seen: return False
        seen.add(t.get_id())
        return t.get_id() in ids or any(go(c) for c in t.children())
    return go(p)


def mentions_only(p, vs): return False


def factor(t, a):
    """t = f * a: f"""
    if isz(t) and z3.is_mul(t):
        ch = t.children()
        for k, c in enumerate(ch):
            if c.eq(a):
                r = [x for j, x in enumerate(ch) if j != k]
                f = r[0]
                for x in r[1:]: f = f * x
                return f
    return None


def unit_rule(E, q): return [sum(x * x for x in q) == 1]


def q2m_post(E):
    q = E.old[1]
    if E.num: return eqv("rotation matrix of the quaternion", E.new[0], qmat(q))
    return eqv("rotation matrix of the quaternion", E.new[0], qmat(q))


def unit_setup(names):
    def setup(ex, st):
        for nm in names:
            v = [z3.Real("%s%d" % (nm, k)) for k in range(4)]
            ex.sq_rules.append((v[0], 1 - v[1] * v[1] - v[2] * v[2] - v[3] * v[3]))
            st.add(n2(v) == 1)
    return setup


def gunit(r, n=4):
    while True:
        v = [r.gauss(0, 1) for _ in range(n)]
        if r.random() < .3: v[r.randrange(n)] = 0.0
        m = math.sqrt(sum(x * x for x in v))
        if m > 1e-3: return [x / m for x in v]


FNS = [
    MF("quat_mult", MS + "quat_mult.c", [o(4), i(4), i(4)], lambda E: eqv("Hamilton product", E.new[0], qmul(E.old[1], E.old[2]))),
    MF("quat_to_mat", MS + "quat_to_mat.c", [o(9), i(4)], q2m_post, setup=unit_setup(["a1_"]), gen=lambda r: [None, gunit(r)]),
    MF("quat_norm", MS + "quat_norm.c", [o(4), i(4)], nrm_post(True), pre=lambda E: [n2(E.old[1]) > Fraction("1e-30")], passes=FOLD, gen=lambda r: [None, gnear(r)]),
    MF("quat_norm_integ", MS + "quat_norm_integ.c", [o(4), i(4)], nrm_post(False), pre=lambda E: [n2(E.old[1]) > Fraction("1e-30")], gen=lambda r: [None, gnear(r)]),
    mc("Q_IDENT", [o(4)], lambda a: [ONE, Z, Z, Z]), mc("Q_COPY", [o(4), i(4)], lambda a: a[1]),
    mc("Q_SCALE", [o(4), i(4), ("s",)], lambda a: [x * a[2] for x in a[1]], alias=[(0, 1)]),
    mc("Q_TRANS", [o(4), i(4)], lambda a: qconj(a[1])),
    mc("QxQ", [o(4), i(4), i(4)], lambda a: qmul(a[1], a[2])), mc("QtxQ", [o(4), i(4), i(4)], lambda a: qmul(qconj(a[1]), a[2])),
    mc("QxQt", [o(4), i(4), i(4)], lambda a: qmul(a[1], qconj(a[2]))),
    mc("VxQ", [o(4), i(3), i(4)], lambda a: qmul([Z] + a[1], a[2])), mc("QxV", [o(4), i(4), i(3)], lambda a: qmul(a[1], [Z] + a[2])),
    mc("Q_dot", [o(4), i(4), i(3)], lambda a: [x * HALF for x in qmul([Z] + [-w for w in a[2]], a[1])]),
]


def gnear(r):
    v = gunit(r)
    k = r.choice([1, 1 + r.uniform(-2e-7, 2e-7), 1 + r.uniform(-1e-6, 1e-6), r.uniform(.01, 50)])
    return [x * k for x in v]


CONTRACTS += [c for f in FNS for c in f.contracts()]
CONTRACTS += [norm_len("quat_norm"), norm_len("quat_norm_integ")]


def mat_to_quat(ctx):
    ex = ctx.exec(mode="int", fmode="real", loop_policy="unroll")
    ex.assumed.add("floating-point arithmetic is treated as exact real arithmetic")
    st = State()
    p = [z3.Real("p%d" % k) for k in range(4)]
    R = qmat(p)
    mo, m = new_vec(ex, st, "mat", 9, ro=True, vals=[z3.Real("m%d" % k) for k in range(9)])
    # a rotation matrix is the matrix of a unit quaternion
    sub = [(m[k], R[k]) for k in range(9)]
    ex.sq_rules.append((p[0], 1 - p[1] * p[1] - p[2] * p[2] - p[3] * p[3]))
    t = [z3.Real("t%d" % k) for k in range(4)]        # 4 p_k^2
    dg = [m[0], m[4], m[8]]
    for k in range(4): st.add(t[k] >= 0)
    st.add(t[0] + t[1] + t[2] + t[3] == 4)
    st.add(And(dg[0] == (t[0] + t[1]) / 2 - 1, dg[1] == (t[0] + t[2]) / 2 - 1, dg[2] == (t[0] + t[3]) / 2 - 1))
    qo, _ = new_vec(ex, st, "quat", 4)
    roots = []

    def sqrt(ex, st, a, x):
        # the argument is 4 p_k^2 for one k: the root is 2 |p_k| = 2 p_k for the right choice of the sign of p
        v = rv(a[0])
        for k in range(4):
            if ex.known(st, v == t[k]) is True:
                ex.prove(st, t[k] > 0, "the divisor is not zero", kind="safety")
                st.ghost["root"] = k
                return z3.Real("root%d" % k)
        raise Unsupported("square root of something else than 4 q_k^2")
    ex.handlers["sqrt"] = sqrt
    ctx.cover(ex, st, "precondition")
    seen = set()
    for o in ex.call(st, ex.find_fn("mat_to_quat"), [Ptr(qo), Ptr(mo)]):
        k = o.st.ghost.get("root")
        seen.add(k)
        q = get_vec(ex, o.st, qo, 4)
        # without loss of generality p_k > 0 (p and -p have the same matrix); root = 2 p_k
        s2 = o.st.fork()
        rt = z3.Real("root%d" % k)
        s2.add(p[k] > 0)
        sub2 = [(rt, 2 * p[k])] + [(m[j], R[j]) for j in range(9)]
        q2 = [z3.substitute(rv(x), *sub2) for x in q]
        # q = 2 * (sign/2) * p
        n = qmat(q2)
        for j in range(9): ex.prove(s2, n[j] == R[j], "root %d: matrix of the result [%d]" % (k, j), assume=False)
        ex.prove(s2, n2(q2) == 1, "root %d: unit length" % k, assume=False)
        # the scalar part is not negative: quat[0] = sgn * x with sgn >= 0 when x >= 0
        s4 = o.st.fork(); s4.add(rt > 0)
        ex.prove(s4, rv(q[0]) >= 0, "root %d: the scalar part is not negative" % k, assume=False)
        ctx.cover(ex, o.st, "return")
    ex.prove(st, z3.BoolVal(seen == {0, 1, 2, 3}), "all four branches are reached", assume=False)


CONTRACTS.append(Contract("mat_to_quat", mat_to_quat, [MS + "mat_to_quat.c"], ["mat_to_quat"], passes="sroa"))


# ---------------------------------------------------------------- rotation about a line
def rod(n, s, c):
    """active rotation by the angle (s, c) about the unit vector n"""
    k = [Z, -n[2], n[1], n[2], Z, -n[0], -n[1], n[0], Z]
    return [(c if a == b else 0) + (1 - c) * n[a] * n[b] + s * k[3 * a + b] for a in range(3) for b in range(3)]


def rot_line(name, src, active):
    def run(ctx):
        ex = ctx.exec(mode="int", fmode="real", loop_policy="unroll")
        ex.assumed.add("floating-point arithmetic is treated as exact real arithmetic")
        st = State()
        ko, k = new_vec(ex, st, "k", 3, ro=True)
        Ro, _ = new_vec(ex, st, "R", 9)
        th = z3.Real("theta")
        st.add(dot(k, k) > Fraction("1e-20"))
        for x in k: st.add(Or(x == 0, x >= Fraction("1e-12"), x <= -Fraction("1e-12")))
        ctx.cover(ex, st, "precondition")
        if active: a = [Ptr(Ro), Ptr(ko), th]
        else:
            po, _ = new_vec(ex, st, "phi", 1, ro=True, vals=[th])
            a = [z3.Int("problem"), Ptr(po), Ptr(ko), Ptr(Ro)]
            st.add(And(a[0] != 0, a[0] < 2**31, a[0] >= -2**31))
        R = z3.RealSort()
        s, c = ex.uf("m_sin", R, R)(th), ex.uf("m_cos", R, R)(th)
        for o in ex.call(st, ex.find_fn(name), a):
            new = get_vec(ex, o.st, Ro, 9)
            mag = ex.uf("m_sqrt", R, R)(dot(k, k))
            n = None
            # the unit vector along k is k / |k|; |k|^2 = k.k
            r = z3.Real("len"); ex.sq_rules.append((r, dot(k, k)))
            o.st.add(And(r > 0, r * r == dot(k, k)))
            want = rod([x / r for x in k], s, c)
            if not active: want = mt(want)
            unify(ex, o.st, new, r, k)
            for j in range(9): ex.prove(o.st, z3.substitute(rv(new[j]), *unify(ex, o.st, new, r, k)) == want[j], "element %d of the rotation by the angle about the axis" % j, assume=False)
            ctx.cover(ex, o.st, "return")
    return Contract(name, run, [src], [name], passes=FOLD)


def unify(ex, st, terms, r, k):
    """square roots of k.k are the length r"""
    sub, seen = [], set()

    def go(t):
        if t.get_id() in seen: return
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().name() == "m_sqrt":
            import poly
            if poly.Norm(ex, st, []).equal(t.arg(0), dot(k, k)): sub.append((t, r))
        for c in t.children(): go(c)
    for t in terms:
        if isz(t): go(t)
    return sub


CONTRACTS += [rot_line("RotAboutLineByAngle", MS + "RodriguesRotation.c", True), rot_line("dsingle_axis_rot", MS + "dsingle_axis_rot.c", False)]


# ---------------------------------------------------------------- native
def native(lib, rnd, more):
    D = ctypes.c_double
    n = 0
    lst = [f for f in FNS]
    vals = read_enum()

    def close(a, b, tol): return all(math.isfinite(x) and abs(x - y) < tol for x, y in zip(a, b))
    while more():
        n += 1
        for f in rnd.sample(lst, 4):
            r = f.native(lib, rnd)
            if r: return n, r
        seq = rnd.choice(SEQ)
        A = [rnd.uniform(-3.1, 3.1), rnd.uniform(-1.5, 1.5), rnd.uniform(-3.1, 3.1)]
        k = rnd.random()
        sing = 0
        if k < .3:
            sing = rnd.choice([1, -1]); A[1] = sing * math.pi / 2
            if rnd.random() < .3: A[1] -= sing * rnd.choice([1e-7, 1e-6, 1e-4, 2e-3])
        elif k < .45: A[rnd.randrange(3)] = rnd.choice([0.0, math.pi / 2 if rnd.random() < .5 else 1.0, -math.pi / 2])
        if abs(A[1]) > math.pi / 2: A[1] = 0.3
        sing = 0 if abs(A[1]) != math.pi / 2 else 1 if A[1] > 0 else -1
        F = [float(x) for x in eul(seq, [(math.sin(x), math.cos(x)) for x in A])]
        quat = rnd.random() < .5
        name = ("euler_quat" if quat else "euler_matrix")
        en = [v for e, v in vals.items() if ENUM[e] == seq][0]
        direct = rnd.random() < .6
        fn = getattr(lib, ("euler%s_quat" % seq if quat else "euler%s" % seq) if direct else name)
        fn.restype = ctypes.c_int
        a = (D * 3)(*A); m = (D * (4 if quat else 9))(); prev = [rnd.uniform(-3, 3) for _ in range(3)]
        p = (D * 3)(*prev)

        def call(arr, method):
            if not direct: return fn(arr, m, method, en)
            return fn(arr, m, method, p) if quat else fn(arr, m, method, p, None, 0)
        r = call(a, 0)
        got = [float(x) for x in (qmat(list(m)) if quat else list(m))]
        desc = "%s(angles %s, sequence %s)" % (name if not direct else fn.__name__, A, seq)
        if r != 0 or list(a) != A: return n, desc + ": method 0 returns %d or changes the angles" % r
        if not close(got, F, 1e-9): return n, desc + ": method 0 gives %s, expected rotation %s" % (list(m), F)
        if quat and abs(sum(x * x for x in m) - 1) > 1e-9: return n, desc + ": quaternion is not of unit length: %s" % list(m)
        # back
        if quat and rnd.random() < .5:
            for j in range(4): m[j] = -m[j]
        if not quat and sing and rnd.random() < .4:
            mi, ms = mid(seq); e = rnd.choice([2e-16, 5e-16, 1e-15, 1e-10])
            m[mi] = sing * ms * (1 + e) if abs(A[1]) == math.pi / 2 else m[mi]
            if abs(m[mi]) > 1 + 1.2e-15:
                b = (D * 3)()
                r = call(b, 1)
                if r != 13 or not all(x != x for x in b): return n, desc + ": a matrix entry %r is not refused (returns %d, angles %s)" % (m[mi], r, list(b))
                continue
        method = rnd.choice([1, 2])
        if method == 2 and not direct: method = 1
        b = (D * 3)(9., 9., 9.)
        if direct and method == 2:
            prev[0] = A[0] + rnd.choice([0, 2 * math.pi, -2 * math.pi, .01, 1.0]); prev[2] = A[2]
            for j in range(3): p[j] = prev[j]
        r = call(b, method)
        near = abs(math.sin(A[1])) > 1 - 2e-6
        back = [float(x) for x in eul(seq, [(math.sin(x), math.cos(x)) for x in b])]
        if not close(back, F, 4e-3 if near and abs(A[1]) != math.pi / 2 else 1e-6): return n, desc + ": angles from the %s (method %d) are %s: not the same rotation" % ("quaternion" if quat else "matrix", method, list(b))
        if method == 1:
            want = SING[seq][0 if sing > 0 else 1] if abs(A[1]) == math.pi / 2 else 0
            if (abs(A[1]) == math.pi / 2 or abs(abs(A[1]) - math.pi / 2) > 1e-5) and r != want: return n, desc + ": method 1 returns %d, expected %d" % (r, want)
        elif r != 0: return n, desc + ": method 2 returns %d" % r
        if not near and not all(abs(math.remainder(x - y, 2 * math.pi)) < 1e-6 for x, y in zip(A, b)): return n, desc + ": angles from the rotation are %s" % list(b)
        if method == 2 and abs(A[1]) == math.pi / 2:
            if b[2] != prev[2]: return n, desc + ": method 2 at the singularity: last angle %r, previous %r" % (b[2], prev[2])
            if abs(b[0] - prev[0]) > 2 * math.pi - .02 and abs(b[0] - prev[0]) < 2 * math.pi + .02: return n, desc + ": method 2 leaves a full turn to the previous angle: %s, previous %s" % (list(b), prev)
        # matrix -> quaternion -> matrix
        Mi = (D * 9)(*F); q = (D * 4)()
        if rnd.random() < .3: Mi = (D * 9)(*[float(x) for x in qmat([Fraction(x) for x in gunit(rnd)])])
        lib.mat_to_quat.restype = None
        F2 = list(Mi)
        lib.mat_to_quat(q, Mi)
        if list(Mi) != F2: return n, "mat_to_quat changes its input"
        if not close([float(x) for x in qmat(list(q))], F2, 1e-7) or q[0] < 0: return n, "mat_to_quat(%s) = %s: not the same rotation or negative scalar part" % (F2, list(q))
        # rotation about a line
        kv = [rnd.uniform(-3, 3) for _ in range(3)]; th = rnd.uniform(-7, 7)
        if rnd.random() < .3: kv[rnd.randrange(3)] = 0.0
        mag = math.sqrt(sum(x * x for x in kv))
        if mag > .01:
            R = (D * 9)(); kc = (D * 3)(*kv)
            lib.RotAboutLineByAngle.restype = None
            lib.RotAboutLineByAngle(R, kc, D(th))
            w = [float(x) for x in rod([x / mag for x in kv], math.sin(th), math.cos(th))]
            if not close(list(R), w, 1e-8): return n, "RotAboutLineByAngle(%s, %r) = %s, expected %s" % (kv, th, list(R), w)
            ph = D(th)
            lib.dsingle_axis_rot.restype = None
            lib.dsingle_axis_rot(1, ctypes.byref(ph), kc, R)
            if not close(list(R), mt(w), 1e-8): return n, "dsingle_axis_rot(forward, %r, %s) = %s, expected %s" % (th, kv, list(R), mt(w))
            # backward
            th2 = rnd.choice([rnd.uniform(0.001, 3.14), rnd.uniform(2.4, 3.1415)])
            w = mt([float(x) for x in rod([x / mag for x in kv], math.sin(th2), math.cos(th2))])
            Rm = (D * 9)(*w); ax = (D * 3)()
            lib.dsingle_axis_rot(0, ctypes.byref(ph), ax, Rm)
            w2 = mt([float(x) for x in rod(list(ax), math.sin(ph.value), math.cos(ph.value))])
            if not close(w, w2, 1e-6): return n, "dsingle_axis_rot(backward, %s): angle %r axis %s: not the same rotation" % (w, ph.value, list(ax))
    return n, None


SRCS = sorted({MS + "deuler_%s%s.c" % (s, q) for s in SEQ for q in ("", "_quat")} | {MS + x for x in ("euler_matrix.c", "euler_quat.c", "mat_to_quat.c", "RodriguesRotation.c", "dsingle_axis_rot.c", "tm_print_error.c")} | {f.src for f in FNS})
CHECK = Check("C11", CONTRACTS, PyNative(native, SRCS))
