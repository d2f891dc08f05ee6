"""C13: one step of each integration scheme is the scheme's Butcher tableau (or Adams formula) applied to arbitrary derivatives.
The derivative function is unknown: every call yields arbitrary values, and each call is checked to be made at the stage the scheme prescribes."""
from objs import *
SI = "trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp"
RO = "trick_source/trick_utils/SAIntegrator/src/RootFinder.cpp"
D = ir.T("double")


def P(ex, s, g, t): ex.prove(s, g if not isinstance(g, bool) else z3.BoolVal(g), t, assume=False)


def q(s):
    f = Fraction(s)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


def lin(base, h, cs, ds):
    """base + h * sum of c_k d_k"""
    t = z3.RealVal(0)
    for c, d in zip(cs, ds):
        if Fraction(c) != 0: t = t + q(c) * d
    return base + h * t


# tableaux: abscissae, stages, weights
EULER = ([0], [[]], ["1"])
HEUN = (["0", "1"], [[], ["1"]], ["1/2", "1/2"])
RK2 = (["0", "1/2"], [[], ["1/2"]], ["0", "1"])
RK4 = (["0", "1/2", "1/2", "1"], [[], ["1/2"], ["0", "1/2"], ["0", "0", "1"]], ["1/6", "1/3", "1/3", "1/6"])
RK38 = (["0", "1/3", "2/3", "1"], [[], ["1/3"], ["-1/3", "1"], ["1", "-1", "1"]], ["1/8", "3/8", "3/8", "1/8"])
FEHL = (["0", "1/4", "3/8", "12/13", "1", "1/2"], [[], ["1/4"], ["3/32", "9/32"], ["1932/2197", "-7200/2197", "7296/2197"], ["439/216", "-8", "3680/513", "-845/4104"],
        ["-8/27", "2", "-3544/2565", "1859/4104", "-11/40"]], ["25/216", "0", "1408/2565", "2197/4104", "-1/5", "0"])
FEHL5 = ["16/135", "0", "6656/12825", "28561/56430", "-9/50", "2/55"]


class Stages:
    """derivatives obtained so far in this step; at the head of a loop around whole steps nothing is remembered"""

    def __init__(self, ds=()): self.ds = tuple(ds)

    def __eq__(self, o): return isinstance(o, Stages) and len(self.ds) == len(o.ds) and all(a is b for a, b in zip(self.ds, o.ds))

    __hash__ = None

    @staticmethod
    def havoc(ex, st): return Stages()


class Sys:
    """an integrator object of class cls with N state variables; I is an arbitrary one of them"""
    FIELDS = dict(X_in="double", X_out="double", default_h="double", user_data="ptr", state_size="i32", inState="ptr", outState="ptr", inVars="ptr", outVars="ptr", derivs_func="ptr")

    def __init__(self, ctx, cls, extra={}, fields=None, nfield="state_size", typ=None, **kw):
        self.ex = ex = ctx.exec(mode="int", fmode="real", cands=self.cands, **kw); self.st = st = State()
        self.cls, self.ctx = cls, ctx; ex.auto_limit = 4; ex.virt["fnptr"] = self.derivs
        f = dict(fields or self.FIELDS); f.update(extra)
        self.T = Thing(ex, st, typ or cls, f); self.o = self.T.o
        self.N, self.I = z3.Int("N"), z3.Int("I")
        st.add(And(self.N >= 0, self.N < 2 ** 27, self.I >= 0, self.I < self.N)); ex.setf(st, self.o, nfield, self.N, "i32"); self.T.v0[nfield] = self.N
        st.ghost["D"] = Stages(); self.vecs = []
        self.fn = ex.symbol("ptr", "derivatives"); self.ud = ex.symbol("ptr", "user_data"); st.add(self.fn.obj.e > 0)
        ex.setf(st, self.o, "user_data", self.ud, "ptr")
        if "derivs_func" in f: ex.setf(st, self.o, "derivs_func", self.fn, "ptr")
        self.X0, self.Xo, self.h = self.T.v0["X_in"], self.T.v0["X_out"], self.T.v0["default_h"]
        self.tab, self.more, self.hh = None, [], self.h

    def vec(self, name, st=None, n=None):
        ex, st = self.ex, st or self.st; n = self.N if n is None else n
        o = ex.new_obj(name, 8 * n, None, "heap"); o.elem = "double"; o.regions.append(Region(0, 8, n)); self.vecs.append(o)
        ex.arr_get(st, o, o.regions[0], 0, "double")
        return o

    def states(self):
        self.inS, self.outS = self.vec("inState"), self.vec("outState")
        self.ex.setf(self.st, self.o, "inState", Ptr(self.inS), "ptr"); self.ex.setf(self.st, self.o, "outState", Ptr(self.outS), "ptr")
        self.in0 = self.at(self.st, self.inS)
        return self

    def a(self, st, o): return self.ex.arr_get(st, o, o.regions[0], 0, "double")

    def at(self, st, o, i=None): return rv(self.a(st, o).get(self.I if i is None else i))

    # what element I of an array written now may be owed
    def owed(self, ds):
        if self.tab is None: return []
        c, A, b = self.tab; vs = [rv(d.get(self.I)) for d in ds]; r = []
        if len(ds) < len(c): r.append(("stage %d" % (len(ds) + 1), lin(self.in0, self.hnow, A[len(ds)], vs)))
        else: r += [("the result", lin(self.in0, self.hnow, b, vs))] + [(t, lin(self.in0, self.hnow, w, vs)) for t, w in self.more]
        return r

    hnow = None

    def cands(self, V):
        k = zint(V.k); ds = V.st.ghost["D"].ds; owed = self.owed(ds); r = [("at most one iteration per variable", k <= self.N)]
        for loc in V.H:
            if loc[0] != "arr": continue
            oid = loc[1][0]; o = self.ex.objs[oid]
            if V.H[loc] != "double": continue
            a = self.ex.arr_get(V.st, o, [r for r in o.regions if r.start == loc[1][1] and r.stride == loc[1][2]][0], loc[1][3], "double")
            rows = range(6) if o.kind == "stack" else [0]
            for j in rows:
                i = self.I + j * self.N if j else self.I
                for t, v in owed:
                    g = rv(a.get(i)) == v
                    r += [("%s row %d is %s" % (o.name, j, t), z3.Implies(self.I < k, g)), ("%s row %d is %s, from the end" % (o.name, j, t), z3.Implies(self.I >= self.N - k, g))]
        r += self.extra_cands(V)
        return r

    def extra_cands(self, V): return []

    def derivs(self, ex, st, cal, a, x):
        """the user's derivative function: checked call, arbitrary result"""
        x_, sp, dp, ud = a
        ds = st.ghost["D"].ds; P = lambda g, t: ex.prove(st, g, t, assume=False)
        if self.tab is None: raise Unsupported("unexpected call of the derivative function")
        if len(ds) == len(self.tab[0]): ds = ()
        m = len(ds); c, A, b = self.tab
        hn = self.hcur(st, x_)
        P(ex.pcmp(st, "eq", cal, self.fn), "the integrator's own derivative function is called"); P(ex.pcmp(st, "eq", ud, self.ud), "with the user's data")
        P(rv(x_) == self.X0 + q(c[m]) * hn, "derivative %d is taken at the scheme's point of the independent variable" % (m + 1))
        got = rv(ex.load(st, Ptr(sp.obj, sp.c, sp.terms + ((8, self.I),)), D))
        P(got == lin(self.in0, hn, A[m], [rv(d.get(self.I)) for d in ds]), "derivative %d is taken at the scheme's intermediate state" % (m + 1))
        d = z3.Function(ex.fresh_name("d%d" % (m + 1)), z3.IntSort(), z3.RealSort())
        self.fill(st, dp, d)
        st.ghost["D"] = Stages(ds + (Fn(d),))
        return 0

    def hcur(self, st, x): return self.hnow

    def fill(self, st, p, d):
        ex = self.ex; o = p.obj
        ex.ensure_region(st, o, Ptr(o, p.c, p.terms + ((8, self.I),)), 8, "double"); r, base, c = ex.region_of(st, o, Ptr(o, p.c, p.terms + ((8, z3.IntVal(0)),)), 8); base = z3.simplify(zint(base))
        old = ex.arr_get(st, o, r, c, "double"); n = self.N
        P(ex, st, And(base >= 0, base + n <= zint(r.count)), "there is room for the derivatives")
        na = ArrFn(lambda i: z3.If(And(zint(i) >= base, zint(i) < base + n), d(zint(i) - base), rv(old.get(i)))); na.kind = "double"
        st.arrs[(o.id, r.start, r.stride, c)] = na


class Fn:
    def __init__(self, f): self.f = f

    def get(self, i): return self.f(i)


LASTH = dict(last_h="double")


VS = "FirstOrderODEVariableStepIntegrator"


def rk(cls, method, tab, arg=True, last=True, typ=None):
    """one step of size h from (X_in, inState)"""
    def run(ctx):
        S = Sys(ctx, "SA::" + cls, LASTH if last else {}, typ="SA::" + (typ or cls)).states(); ex, st = S.ex, S.st
        S.tab = tab; h = z3.Real("h") if arg else S.h; S.hnow = h
        ctx.cover(ex, st, "precondition")
        for o in ex.call(st, meth(ex, "SA::%s::%s(" % (cls, method)), [S.T.this()] + ([h] if arg else [])):
            s = o.st; ctx.cover(ex, s, "return"); ds = s.ghost["D"].ds
            P(ex, s, len(ds) == len(tab[0]), "every derivative of the scheme is taken, once")
            if len(ds) == len(tab[0]): P(ex, s, S.at(s, S.outS) == lin(S.in0, h, tab[2], [rv(d.get(S.I)) for d in ds]), "the new state is the scheme's weighted sum")
            P(ex, s, S.at(s, S.inS) == S.in0, "the initial state is kept")
            P(ex, s, rv(S.T.get(s, "X_out")) == S.X0 + h, "the independent variable advances by the step")
            if last: P(ex, s, rv(S.T.get(s, "last_h")) == h, "the step is remembered")
            S.T.frame(s, ("X_out", "last_h"))
    return Contract("%s::%s" % (cls, method), run, [SI], ["SA::%s::%s" % (cls, method), "advanceIndyVar"])


def absr(x): return z3.If(x < 0, -x, x)


class Fehlberg(Sys):
    """the step size changes from attempt to attempt: it is the one number the loop around the attempts carries"""

    def cands(self, V):
        if not V.st.ghost["D"].ds and len(V.reals) == 1 and V.fn == self.body: self.hnow = rv(V.reals[0])
        return super().cands(V)

    def extra_cands(self, V):
        r = []; ds = V.st.ghost["D"].ds; k = zint(V.k)
        for i, x in enumerate(V.reals):
            x = rv(x); r += [("real %d > 0" % i, x > 0), ("real %d >= 0" % i, x >= 0)]
            if len(ds) == 6:
                out = self.at(V.st, self.outS)
                for oid, a in self.stack(V.st): r.append(("real %d bounds the errors, %s" % (i, self.ex.objs[oid].name), z3.Implies(self.I < k, x >= absr(out - rv(a.get(self.I))) / self.hnow)))
        return r

    def stack(self, st): return [(k[0], a) for k, a in sorted(st.arrs.items()) if self.ex.objs[k[0]].kind == "stack" and getattr(a, "kind", "") == "double"]


def fehlberg(ctx):
    S = Fehlberg(ctx, "SA::RKF45Integrator", dict(epsilon="double", next_h="double", last_h="double")).states(); ex, st = S.ex, S.st; h = z3.Real("h"); S.hnow = h
    S.tab = FEHL; S.more = [("the fifth-order result", FEHL5)]
    eps, hm = S.T.v0["epsilon"], S.h; st.add(And(h > 0, hm > 0, eps > 0))
    f = meth(ex, "SA::RKF45Integrator::adaptive_step("); S.body = f.name

    def pw(ex, st, a, x):
        r = z3.Real(ex.fresh_name("pow")); st.add(z3.Implies(rv(a[0]) > 0, r > 0)); return r
    ex.handlers["pow"] = pw
    ctx.cover(ex, st, "precondition")
    for o in ex.call(st, f, [S.T.this(), h]):
        s = o.st; ctx.cover(ex, s, "return"); ds = s.ghost["D"].ds; H = S.hnow; g = lambda x: rv(S.T.get(s, x))
        P(ex, s, len(ds) == 6, "every derivative of the scheme is taken")
        if len(ds) != 6: continue
        vs = [rv(d.get(S.I)) for d in ds]; four, five = lin(S.in0, H, FEHL[2], vs), lin(S.in0, H, FEHL5, vs)
        P(ex, s, And(S.at(s, S.outS) == four, g("last_h") == H, H > 0), "the new state is the scheme's weighted sum for the step that was remembered")
        P(ex, s, absr(four - five) <= eps * H, "the difference from the fifth-order result, per unit of step, is within epsilon")
        P(ex, s, And(g("next_h") > 0, g("next_h") <= hm, rv(o.val) == g("next_h")), "the proposed step is positive and at most the largest allowed")
        P(ex, s, S.at(s, S.inS) == S.in0, "the initial state is kept"); P(ex, s, g("X_out") == S.X0 + H, "the independent variable advances by the step")
        S.T.frame(s, ("X_out", "last_h", "next_h"))
    S = Sys(ctx, "SA::RKF45Integrator", dict(epsilon="double", next_h="double", last_h="double")); ex, st = S.ex, S.st; st.ghost["calls"] = Rec()
    external(ex, f.name, "double")
    for o in ex.call(st, meth(ex, "SA::RKF45Integrator::step("), [S.T.this()]):
        c = calls(o.st); P(ex, o.st, len(c) == 1, "one adaptive step"); ctx.cover(ex, o.st, "return")
        if len(c) == 1: P(ex, o.st, And(ex.pcmp(o.st, "eq", c[0][1][0], S.T.this()), rv(c[0][1][1]) == S.T.v0["next_h"]), "of the proposed size")


class Cromer(Sys):
    FIELDS = dict(X_in="double", X_out="double", default_h="double", user_data="ptr", nDimensions="i32", pos_p="ptr", vel_p="ptr", pos_in="ptr", vel_in="ptr", pos_out="ptr", vel_out="ptr", g_out="ptr", last_h="double", gderivs="ptr")

    def __init__(self, ctx):
        super().__init__(ctx, "SA::EulerCromerIntegrator", nfield="nDimensions"); ex, st = self.ex, self.st
        for f in ("pos_in", "vel_in", "pos_out", "vel_out", "g_out"):
            o = self.vec(f); setattr(self, f, o); ex.setf(st, self.o, f, Ptr(o), "ptr")
        ex.setf(st, self.o, "gderivs", self.fn, "ptr"); self.p0, self.v0 = self.at(st, self.pos_in), self.at(st, self.vel_in); self.hnow = self.h

    def derivs(self, ex, st, cal, a, x):
        t, xp, vp, dp, ud = a; Q = lambda g, t: ex.prove(st, g, t, assume=False)
        Q(ex.pcmp(st, "eq", cal, self.fn), "the integrator's own derivative function is called"); Q(ex.pcmp(st, "eq", ud, self.ud), "with the user's data"); Q(rv(t) == self.X0, "at the start of the step")
        I = lambda p: rv(ex.load(st, Ptr(p.obj, p.c, p.terms + ((8, self.I),)), D))
        Q(And(I(xp) == self.p0, I(vp) == self.v0), "of the initial positions and velocities")
        d = z3.Function(ex.fresh_name("acceleration"), z3.IntSort(), z3.RealSort()); self.fill(st, dp, d); st.ghost["D"] = Stages(st.ghost["D"].ds + (Fn(d),))
        return 0

    def owed(self, ds):
        if len(ds) != 1: return []
        v = self.v0 + self.hnow * ds[0].get(self.I)
        return [("the velocity", v), ("the position", self.p0 + self.hnow * v)]


def cromer(ctx):
    for sig, arg in (("step(double", True), ("step()", False)):
        S = Cromer(ctx); ex, st = S.ex, S.st; h = z3.Real("dt") if arg else S.h; S.hnow = h
        for o in ex.call(st, meth(ex, "SA::EulerCromerIntegrator::" + sig), [S.T.this()] + ([h] if arg else [])):
            s = o.st; ds = s.ghost["D"].ds; ctx.cover(ex, s, "return"); P(ex, s, len(ds) == 1, "one derivative")
            if len(ds) != 1: continue
            v = S.v0 + h * ds[0].get(S.I)
            P(ex, s, S.at(s, S.vel_out) == v, "the velocity advances with the acceleration"); P(ex, s, S.at(s, S.pos_out) == S.p0 + h * v, "the position advances with the new velocity")
            P(ex, s, And(S.at(s, S.vel_in) == S.v0, S.at(s, S.pos_in) == S.p0), "the initial state is kept")
            P(ex, s, And(rv(S.T.get(s, "X_out")) == S.X0 + h, rv(S.T.get(s, "last_h")) == h), "the independent variable advances by the step, which is remembered")
            S.T.frame(s, ("X_out", "last_h"))


# ------------------------------------------------------------------ variables in, variables out
class Vars(Sys):
    """tables of N pointers to different variables of the user"""

    def table(self, field, name):
        ex, st = self.ex, self.st
        t = ex.new_obj(name, 8 * self.N, None, "heap"); t.elem = "ptr"; t.regions.append(Region(0, 8, self.N)); t.readonly = True
        A = ex.arr_get(st, t, t.regions[0], 0, "ptr"); i, j = z3.Ints("ti tj")
        st.addq(z3.ForAll([i, j], z3.Implies(And(i >= 0, i < j, j < self.N), A.get(i) != A.get(j)), patterns=[z3.MultiPattern(A.get(i), A.get(j))])); st.addq(z3.ForAll([i], A.get(i) > 0, patterns=[A.get(i)]))
        ex.setf(st, self.o, field, Ptr(t), "ptr")
        return A

    def heap(self, st): return self.ex.heap_arr(st, ("P", "double"), "double")

    def var(self, st, A, i=None): return rv(self.heap(st).get(A.get(self.I if i is None else i)))

    def pair(self, *ps):
        """(name, target value now, source value before)"""
        self.moves = ps

    def cands(self, V):
        k = zint(V.k); r = []
        for t, now, src in self.moves: r += [("%s moved, from the end" % t, z3.Implies(self.I >= self.N - k, now(V.st) == src)), ("%s not yet moved, from the end" % t, z3.Implies(self.I < self.N - k, now(V.st) == self.before[t])), ("%s moved" % t, z3.Implies(self.I < k, now(V.st) == src)), ("%s not yet moved" % t, z3.Implies(self.I >= k, now(V.st) == self.before[t]))]
        return r

    def go(self, sig):
        self.before = {t: now(self.st) for t, now, src in self.moves}
        return self.ex.call(self.st, meth(self.ex, sig), [self.T.this()])


FO, EC = "SA::FirstOrderODEIntegrator", "SA::EulerCromerIntegrator"


def moves(ctx):
    # inVars -> inState
    S = Vars(ctx, FO).states(); ex, st = S.ex, S.st; A = S.table("inVars", "inVars"); now = lambda s: S.at(s, S.inS); v = S.var(st, A); S.pair(("state", now, v)); out0 = S.at(st, S.outS)
    for o in S.go(FO + "::load("):
        s = o.st; ctx.cover(ex, s, "return"); P(ex, s, now(s) == v, "every state is read from its own variable"); P(ex, s, rv(S.T.get(s, "X_in")) == S.Xo, "the step starts where the last one ended")
        P(ex, s, And(S.var(s, A) == v, S.at(s, S.outS) == out0), "variables and results are not changed"); S.T.frame(s, ("X_in",))
    # outState -> outVars
    S = Vars(ctx, FO).states(); ex, st = S.ex, S.st; A = S.table("outVars", "outVars"); now = lambda s: S.var(s, A); v = S.at(st, S.outS); S.pair(("variable", now, v))
    for o in S.go(FO + "::unload("):
        s = o.st; ctx.cover(ex, s, "return"); P(ex, s, now(s) == v, "every result is written to its own variable"); P(ex, s, And(S.at(s, S.outS) == v, S.at(s, S.inS) == S.in0), "states are not changed"); S.T.frame(s)
    # undo
    S = Vars(ctx, FO).states(); ex, st = S.ex, S.st; A = S.table("inVars", "inVars"); now = lambda s: S.var(s, A); v = S.in0; S.pair(("variable", now, v))
    for o in S.go(FO + "::undo_integrate("):
        s = o.st; ctx.cover(ex, s, "return"); P(ex, s, now(s) == v, "every variable has its value from before the step"); P(ex, s, And(S.at(s, S.outS) == v, S.at(s, S.inS) == v), "so has the result")
        P(ex, s, And(rv(S.T.get(s, "X_out")) == S.X0, rv(o.val) == S.h), "the independent variable is back, the step is returned"); S.T.frame(s, ("X_out",))
    S = Vars(ctx, "SA::" + VS, LASTH).states(); ex, st = S.ex, S.st; A = S.table("inVars", "inVars"); now = lambda s: S.var(s, A); v = S.in0; S.pair(("variable", now, v))
    for o in S.go("SA::" + VS + "::undo_integrate("):
        s = o.st; ctx.cover(ex, s, "return"); P(ex, s, And(now(s) == v, S.at(s, S.outS) == v, rv(S.T.get(s, "X_out")) == S.X0, rv(o.val) == S.T.v0["last_h"]), "a step of variable size is undone too"); S.T.frame(s, ("X_out",))
    # outState -> inState
    S = Vars(ctx, FO).states(); ex, st = S.ex, S.st; now = lambda s: S.at(s, S.inS); v = S.at(st, S.outS); S.pair(("state", now, v))
    for o in S.go(FO + "::load_from_outState("):
        s = o.st; ctx.cover(ex, s, "return"); P(ex, s, And(now(s) == v, S.at(s, S.outS) == v, rv(S.T.get(s, "X_in")) == S.Xo), "the next step starts from the result"); S.T.frame(s, ("X_in",))
    # no variables
    for f, m in (("inVars", "load"), ("outVars", "unload"), ("inVars", "undo_integrate")):
        S = Vars(ctx, FO).states(); ex, st = S.ex, S.st; S.pair(); ex.setf(st, S.o, f, NULL, "ptr"); v = S.at(st, S.outS); ex.patterns.append((re.compile("operator<<|ostream"), lambda ex, st, a, x: a[0] if a else 0))
        for o in S.go(FO + "::%s(" % m):
            s = o.st; ctx.cover(ex, s, "return"); P(ex, s, And(S.at(s, S.outS) == v, S.at(s, S.inS) == S.in0), "without variables nothing is moved"); S.T.frame(s)


class CVars(Vars, Cromer):
    def __init__(self, ctx): Cromer.__init__(self, ctx)


def cmoves(ctx):
    for m in ("load", "unload", "undo_integrate"):
        S = CVars(ctx); ex, st = S.ex, S.st; A, B = S.table("pos_p", "pos_p"), S.table("vel_p", "vel_p"); i, j = z3.Ints("ti tj")
        st.addq(z3.ForAll([i, j], z3.Implies(And(i >= 0, i < S.N, j >= 0, j < S.N), A.get(i) != B.get(j)), patterns=[z3.MultiPattern(A.get(i), B.get(j))]))
        pi, vi = (lambda s: S.at(s, S.pos_in)), (lambda s: S.at(s, S.vel_in)); pv, vv = (lambda s: S.var(s, A)), (lambda s: S.var(s, B))
        fr, to = {"load": ((pv, vv), (pi, vi)), "unload": ((lambda s: S.at(s, S.pos_out), lambda s: S.at(s, S.vel_out)), (pv, vv)), "undo_integrate": ((pi, vi), (pv, vv))}[m]
        a, b = fr[0](st), fr[1](st); S.pair(("position", to[0], a), ("velocity", to[1], b))
        for o in S.go(EC + "::%s(" % m):
            s = o.st; ctx.cover(ex, s, "return"); P(ex, s, And(to[0](s) == a, to[1](s) == b), "%s: every position and velocity reaches its place" % m); P(ex, s, And(fr[0](s) == a, fr[1](s) == b), "%s: and is kept where it came from" % m)
            if m == "load": P(ex, s, rv(S.T.get(s, "X_in")) == S.Xo, "the step starts where the last one ended")
            if m == "undo_integrate": P(ex, s, And(rv(S.T.get(s, "X_out")) == S.X0, S.at(s, S.pos_out) == a, S.at(s, S.vel_out) == b), "the result is undone")
            S.T.frame(s, {"load": ("X_in",), "unload": (), "undo_integrate": ("X_out",)}[m])


# ------------------------------------------------------------------ Adams-Bashforth-Moulton
AB = {1: ["1"], 2: ["3/2", "-1/2"], 3: ["23/12", "-16/12", "5/12"], 4: ["55/24", "-59/24", "37/24", "-9/24"], 5: ["1901/720", "-2774/720", "2616/720", "-1274/720", "251/720"]}
AM = {1: ["1"], 2: ["1/2", "1/2"], 3: ["5/12", "8/12", "-1/12"], 4: ["9/24", "19/24", "-5/24", "1/24"], 5: ["251/720", "646/720", "-264/720", "106/720", "-19/720"]}


class Adams(Vars):
    """s derivatives are remembered in a ring of s + 1; hix is the newest, cur of them are valid"""

    def __init__(self, ctx, cls, s, hix, cur, full=None):
        x = dict(deriv_history="ptr", composite_deriv="ptr", bufferSize="i32", hix="i32", currentHistorySize="i32")
        if full is None: x["algorithmHistorySize"] = "i32"
        else: x["priming_integrator"] = "ptr"
        super().__init__(ctx, cls, x); self.states(); ex, st = self.ex, self.st
        self.s, self.bs, self.hix, self.cur = s, s + 1, hix, cur
        for f, v in (("bufferSize", self.bs), ("hix", hix), ("currentHistorySize", cur)) + ((("algorithmHistorySize", s),) if full is None else ()): ex.setf(st, self.o, f, v, "i32"); self.T.v0[f] = z3.IntVal(v)
        comp = self.vec("composite"); ex.setf(st, self.o, "composite_deriv", Ptr(comp), "ptr")
        self.slots = [self.vec("history %d" % i) for i in range(self.bs)]
        ring = ex.new_obj("ring", 8 * self.bs, None, "heap"); c = st.cells(ring, True)
        for i, o in enumerate(self.slots): c[8 * i] = (8, "ptr", Ptr(o))
        ex.setf(st, self.o, "deriv_history", Ptr(ring), "ptr"); self.hnow = self.h
        self.H = [self.at(st, self.slots[(hix - n) % self.bs]) for n in range(s)]
        self.pair(); self.c = min(cur + 1, s)

    def owed(self, ds):
        """the predicted state once the present derivative is known, then the corrected one"""
        vs = [rv(d.get(self.I)) for d in ds]
        if len(ds) == 1: return [("the predicted state", lin(self.in0, self.h, AB[self.c], vs + self.H))]
        if len(ds) == 2: return [("the corrected state", lin(self.in0, self.h, AM[self.c], [vs[1], vs[0]] + self.H))]
        return []

    def cands(self, V): return Sys.cands(self, V) + Vars.cands(self, V)

    def derivs(self, ex, st, cal, a, x):
        t, sp, dp, ud = a; Q = lambda g, t: ex.prove(st, g, t, assume=False); ds = st.ghost["D"].ds
        if len(ds) == 2: ds = ()
        Q(ex.pcmp(st, "eq", cal, self.fn), "the integrator's own derivative function is called"); Q(ex.pcmp(st, "eq", ud, self.ud), "with the user's data")
        got = rv(ex.load(st, Ptr(sp.obj, sp.c, sp.terms + ((8, self.I),)), D))
        if not ds: Q(rv(t) == self.X0, "the present derivative is taken at the start of the step"); Q(got == self.in0, "of the present state")
        else: Q(rv(t) == self.X0 + self.h, "the derivative of the predicted state is taken at the end of the step"); Q(got == self.owed(ds)[0][1], "of the predicted state")
        d = z3.Function(ex.fresh_name("d%d" % (len(ds) + 1)), z3.IntSort(), z3.RealSort()); self.fill(st, dp, d); st.ghost["D"] = Stages(ds + (Fn(d),))
        return 0

    def stepped(self, s, tag=""):
        ex, T = self.ex, self.T; ds = s.ghost["D"].ds
        P(ex, s, len(ds) == 2, tag + "one prediction, one correction")
        if len(ds) != 2: return
        P(ex, s, self.at(s, self.outS) == self.owed(ds)[0][1], tag + "the new state is the corrected one")
        P(ex, s, self.at(s, self.inS) == self.in0, tag + "the initial state is kept"); P(ex, s, rv(T.get(s, "X_out")) == self.X0 + self.h, tag + "the independent variable advances by the step")
        self.ring(s, ds, tag)

    def ring(self, s, ds, tag):
        ex, T = self.ex, self.T
        n = (self.hix + 1) % self.bs
        P(ex, s, And(T.get(s, "hix") == n, T.get(s, "currentHistorySize") == self.c), tag + "the history grows by one, up to its limit")
        P(ex, s, self.at(s, self.slots[n]) == ds[0].get(self.I), tag + "the present derivative is the newest of the history"); P(ex, s, And(*[self.at(s, self.slots[(n - 1 - j) % self.bs]) == self.H[j] for j in range(self.s - 1)]) if self.s > 1 else True, tag + "the ones before are kept")
        T.frame(s, ("hix", "currentHistorySize", "X_out"))


def adams(cls, s, full=None):
    def run(ctx):
        prime = full is not None
        for hix in range(s + 1):
            for cur in range(s + 1):
                if cur and not prime and False: continue
                S = Adams(ctx, "SA::" + cls, s, hix, cur, full); ex, st = S.ex, S.st; S.table("inVars", "inVars")
                step, undo = meth(ex, "SA::%s::step(" % cls), meth(ex, "SA::%s::undo_integrate(" % cls)
                if prime and S.c < s: primed(ctx, S, full, step, undo); continue
                if cur == s: ctx.cover(ex, st, "precondition")
                for o in ex.call(st, step, [S.T.this()]):
                    ctx.cover(ex, o.st, "return") if cur == s else None
                    S.stepped(o.st); n = o.st.fork()
                    for u in ex.call(n, undo, [S.T.this()]):
                        t = u.st; P(ex, t, And(rv(S.T.get(t, "X_out")) == S.X0, S.at(t, S.outS) == S.in0, rv(u.val) == S.h), "undo: the independent variable and the result are back, the step is returned")
                        t.ghost["D"] = Stages()
                        for r in ex.call(t, step, [S.T.this()]): S.stepped(r.st, "the step taken again after an undo: ")
    return Contract("%s, history of %d" % (cls, s), run, [SI], ["SA::%s::step" % cls, "SA::%s::undo_integrate" % cls], timeout=400)


def primed(ctx, S, full, step, undo):
    """until the history is complete a step is the priming integrator's, from the same point"""
    ex, st = S.ex, S.st; pr = Thing(ex, st, "SA::" + VS, dict(Sys.FIELDS, **LASTH), "priming", "priming"); ex.setf(st, S.o, "priming_integrator", pr.this(), "ptr")
    st.ghost["calls"] = Rec()

    def virt(ex, st, cal, a, x):
        nm = vname(ex, "SA::" + full, cal.slot[1] if isinstance(cal.slot, tuple) else cal.slot)
        note(st, nm, a, rv(pr.get(st, "X_out"))); return 0
    ex.virt["resolve"] = virt
    for f in ("load", "step", "unload"): ex.patterns.append((re.compile("SA::(%s|%s|FirstOrderODEIntegrator)::%s\\(" % (full, VS, f)), (lambda f: lambda ex, st, a, x: (note(st, f, a, rv(pr.get(st, "X_out"))), 0)[1])(f)))
    S.tab = None
    for rnd in ("", "the step taken again after an undo: "):
        nx = []
        for o in ex.call(st, step, [S.T.this()]):
            s = o.st; c = calls(s); ds = s.ghost["D"].ds; P(ex, s, names(s) == ["load", "step", "unload"], rnd + "the priming integrator loads, steps and unloads")
            P(ex, s, len(ds) == 1, rnd + "one derivative is taken")
            if names(s) == ["load", "step", "unload"]: P(ex, s, And(*[ex.pcmp(s, "eq", k[1][0], pr.this()) for k in c]), rnd + "each of them the integrator's own"); P(ex, s, c[0][2] == S.X0, rnd + "it starts at the same point of the independent variable")
            P(ex, s, rv(S.T.get(s, "X_out")) == S.X0 + S.h, rnd + "the independent variable advances by the step")
            if len(ds) == 1: S.ring(s, ds, rnd)
            nx.append(s)
        if rnd: return
        st = nx[0]
        for u in ex.call(st, undo, [S.T.this()]): st = u.st; st.ghost["D"] = Stages(); st.ghost["calls"] = Rec()


# ------------------------------------------------------------------ steps that stop at events
def events(ctx):
    """whatever the error function asks for, the step ends where it was to end"""
    V = "SA::" + VS
    def mk():
        box = {}
        def cands(W):
            st, T = W.st, box["T"]; g = lambda f: rv(T.get(st, f)); r = [("position", g("X_out") == g("X_in") + g("last_h")), ("start", g("X_in") == T.v0["X_in"])]
            for i, x in enumerate(W.reals):
                if not isz(x) and not isinstance(x, (int, Fraction)): x = z3.Real("unset")
                r += [("real %d is the last step" % i, rv(x) == g("last_h")), ("after the first time real %d is the last step" % i, z3.Implies(zint(W.k) > 0, rv(x) == g("last_h"))), ("the first time real %d is negative" % i, z3.Implies(zint(W.k) == 0, rv(x) < 0))]
            return r
        ex = ctx.exec(mode="int", fmode="real", cands=cands); st = State(); T = Thing(ex, st, V, dict(Sys.FIELDS, root_finder="ptr", root_error_func="ptr", **LASTH)); box["T"] = T
        S = type("S", (), {})(); S.ex, S.st, S.T = ex, st, T
        S.rf, S.fn, S.out = ex.symbol("ptr", "root_finder"), ex.symbol("ptr", "root_error"), ex.symbol("ptr", "outState"); S.ud = ex.symbol("ptr", "user_data")
        for f, v in (("root_finder", S.rf), ("root_error_func", S.fn), ("outState", S.out), ("user_data", S.ud)): ex.setf(st, T.o, f, v, "ptr")
        for v in (S.rf, S.fn): st.add(v.obj.e >= 0)
        put = lambda st, f, v: ex.setf(st, T.o, f, v, "double"); g = lambda st, f: rv(T.get(st, f))

        def vstep(ex, st, a, x):
            P(ex, st, ex.pcmp(st, "eq", a[0], T.this()), "its own step"); put(st, "last_h", rv(a[1])); put(st, "X_out", g(st, "X_in") + rv(a[1])); note(st, "step", a); return 0

        def undo(ex, st, a, x): P(ex, st, ex.pcmp(st, "eq", a[0], T.this()), "its own undo"); put(st, "X_out", g(st, "X_in")); return g(st, "last_h")

        def restart(ex, st, a, x): put(st, "X_in", g(st, "X_out")); return 0

        def error(ex, st, cal, a, x):
            P(ex, st, And(ex.pcmp(st, "eq", cal, S.fn), ex.pcmp(st, "eq", a[1], S.out), ex.pcmp(st, "eq", a[2], S.rf), ex.pcmp(st, "eq", a[3], S.ud)), "the error function is asked about the new state"); P(ex, st, rv(a[0]) == g(st, "X_out"), "at the point of the independent variable it is for")
            return z3.Real(ex.fresh_name("correction"))
        ex.virt["fnptr"] = error
        H = dict(variable_step=vstep, undo_integrate=undo)

        def virt(ex, st, cal, a, x):
            nm = vname(ex, V, cal.slot[1] if isinstance(cal.slot, tuple) else cal.slot)
            if nm not in H: raise Unsupported("virtual call of " + nm)
            return H[nm](ex, st, a, x)
        ex.virt["resolve"] = virt
        for n, h in (("variable_step", vstep), ("undo_integrate", undo), ("load_from_outState", restart)): ex.patterns.append((re.compile(r"SA::\w+::%s\(" % n), h))
        st.ghost["calls"] = Calls(); S.g = g
        return S
    S = mk(); ex, st = S.ex, S.st; h = z3.Real("h"); d = z3.Int("depth"); st.add(And(d >= 0, d < 2 ** 31)); T = S.T; X = T.v0["X_in"]
    st.add(And(T.v0["X_out"] == X + h, T.v0["last_h"] == h, S.fn.obj.e > 0)); f = meth(ex, V + "::find_roots("); ctx.cover(ex, st, "precondition")

    def again(ex, st, a, x):
        P(ex, st, And(S.g(st, "X_out") == S.g(st, "X_in") + rv(a[1]), S.g(st, "last_h") == rv(a[1]), ex.pcmp(st, "eq", a[0], T.this())), "further events are looked for in the rest of the step"); P(ex, st, And(zint(a[2]) >= 0, zint(a[2]) < d), "fewer and fewer times")
        for f in ("X_in", "last_h"): ex.setf(st, T.o, f, z3.Real(ex.fresh_name(f)), "double")
        return 0
    ex.handlers[f.name] = again
    for o in ex.call(st, f, [T.this(), h, d]): P(ex, o.st, S.g(o.st, "X_out") == X + h, "the step ends where it was to end"); ctx.cover(ex, o.st, "return")
    # step
    S = mk(); ex, st = S.ex, S.st; T = S.T; X = T.v0["X_in"]

    def roots(ex, st, a, x):
        P(ex, st, And(rv(a[1]) == T.v0["default_h"], S.g(st, "X_out") == S.g(st, "X_in") + rv(a[1]), S.g(st, "last_h") == rv(a[1])), "events are looked for in the step just taken")
        end = S.g(st, "X_in") + rv(a[1])
        for f in ("X_in", "last_h"): ex.setf(st, T.o, f, z3.Real(ex.fresh_name(f)), "double")
        ex.setf(st, T.o, "X_out", end, "double"); note(st, "roots", a); return 0
    ex.handlers[f.name] = roots
    for o in ex.call(st, meth(ex, V + "::step("), [T.this()]):
        s = o.st; ctx.cover(ex, s, "return"); n = names(s)
        P(ex, s, S.g(s, "X_out") == X + T.v0["default_h"], "the independent variable advances by the step"); P(ex, s, n[:1] == ["step"], "one step is taken")
        both = And(S.rf.obj.e != 0, S.fn.obj.e != 0)
        P(ex, s, both if "roots" in n else Not(both), "events are looked for when there is a root finder and an error function")


class Calls(Rec):
    """calls made inside a loop are not kept"""
    @staticmethod
    def havoc(ex, st): return Calls()


def note2(st, name, args=(), res=None): st.ghost["calls"] = Calls(st.ghost["calls"].l + ((name, tuple(args), res),))


note = note2


def whole(ctx):
    ex = ctx.exec(mode="int", fmode="real"); st = State(); T = Thing(ex, st, "SA::Integrator", dict(X_in="double", X_out="double", default_h="double", user_data="ptr")); st.ghost["calls"] = Rec()
    def virt(ex, st, cal, a, x): note(st, vname(ex, "SA::Integrator", cal.slot[1] if isinstance(cal.slot, tuple) else cal.slot), a); return 0
    ex.virt["resolve"] = virt
    for o in ex.call(st, meth(ex, "SA::Integrator::integrate("), [T.this()]): P(ex, o.st, names(o.st) == ["load", "step", "unload"], "variables are read, the step is taken, results are written"); ctx.cover(ex, o.st, "return")
    for nm, fld, val in (("load", "X_in", lambda v: v["X_out"]), ("step", "X_out", lambda v: v["X_in"] + v["default_h"]), ("undo_integrate", "X_out", lambda v: v["X_in"])):
        ex = ctx.exec(mode="int", fmode="real"); st = State(); T = Thing(ex, st, "SA::Integrator", dict(X_in="double", X_out="double", default_h="double", user_data="ptr"))
        for o in ex.call(st, meth(ex, "SA::Integrator::%s(" % nm), [T.this()]):
            s = o.st; ctx.cover(ex, s, "return"); P(ex, s, rv(T.get(s, fld)) == val(T.v0), "%s of the base class moves the independent variable" % nm); T.frame(s, (fld,))
            if nm == "undo_integrate": P(ex, s, rv(o.val) == T.v0["default_h"], "and returns the step")
    ex = ctx.exec(mode="int", fmode="real"); st = State(); T = Thing(ex, st, "SA::Integrator", dict(X_in="double", X_out="double", default_h="double", user_data="ptr")); v = z3.Real("v")
    for o in ex.call(st, meth(ex, "SA::Integrator::setIndyVar("), [T.this(), v]):
        for r in ex.call(o.st, meth(ex, "SA::Integrator::getIndyVar("), [T.this()]): P(ex, r.st, And(rv(r.val) == v, rv(T.get(r.st, "X_out")) == v), "the independent variable is what was set"); T.frame(r.st, ("X_out",)); ctx.cover(ex, r.st, "return")


CS = [rk("FirstOrderODEIntegrator", "step", EULER, False, False), rk("FirstOrderODEVariableStepIntegrator", "variable_step", EULER), rk("EulerIntegrator", "variable_step", EULER, typ=VS), rk("HeunsMethod", "variable_step", HEUN, typ=VS),
      rk("RK2Integrator", "variable_step", RK2, typ=VS), rk("RK4Integrator", "variable_step", RK4, typ=VS), rk("RK3_8Integrator", "variable_step", RK38, typ=VS),
      Contract("RKF45Integrator", fehlberg, [SI], ["SA::RKF45Integrator::adaptive_step", "SA::RKF45Integrator::step"]), Contract("EulerCromerIntegrator", cromer, [SI], ["SA::EulerCromerIntegrator::step"]),
      Contract("variables in and out", moves, [SI], [FO + "::load", FO + "::unload", FO + "::undo_integrate", FO + "::load_from_outState"]),
      Contract("positions and velocities in and out", cmoves, [SI], [EC + "::load", EC + "::unload", EC + "::undo_integrate"])]
CS += [Contract("steps with events", events, [SI, RO], ["SA::%s::find_roots" % VS, "SA::%s::step" % VS]), Contract("Integrator", whole, [SI], ["SA::Integrator::integrate", "SA::Integrator::load", "SA::Integrator::step", "SA::Integrator::undo_integrate", "SA::Integrator::setIndyVar", "SA::Integrator::getIndyVar"])]
CS += [adams("ABMIntegrator", n) for n in (1, 2, 3, 4, 5)] + [adams("ABM2Integrator", 2, "RK2Integrator"), adams("ABM4Integrator", 4, "RK4Integrator")]
CHECK = Check("C13", CS, Native("native/c13.cpp", [SI, RO]))
