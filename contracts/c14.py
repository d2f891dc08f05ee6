"""C14: event-time estimators keep the latest bracket and propose its secant."""
from objs import *
RF = "trick_source/sim_services/Integrator/src/regula_falsi.c"
RR = "trick_source/sim_services/Integrator/src/reset_regula_falsi.c"
RO = "trick_source/trick_utils/SAIntegrator/src/RootFinder.cpp"
F = dict(lower_set="i32", upper_set="i32", iterations="i32", fires="i32", x_lower="double", t_lower="double", x_upper="double", t_upper="double", delta_time="double", error="double", last_error="double", last_tgo="double",
         error_tol="double", mode="i32", function_slope="i32")
ANY, INC, DEC = 0, 1, -1
BIG = Fraction(1000)


def P(ex, s, g, t): ex.prove(s, g if not isinstance(g, bool) else z3.BoolVal(g), t, assume=False)


def absr(x): return z3.If(x < 0, -x, x)


def spec(ex, s, ret, time, err, tol, mode, slope0, it0, last0, pre, post, slope1, it1, none, bump):
    """what one call owes; pre/post: bracket (lower set, its error, its time, upper set, ...)"""
    l0, xl0, tl0, u0, xu0, tu0 = pre
    l1, xl1, tl1, u1, xu1, tu1 = post
    near = absr(err) < tol
    stall = And(it0 > 0, absr(last0 - err) < tol)
    first = And(bump(near, stall), Or(mode == ANY, And(mode == INC, l0), And(mode == DEC, u0)))
    r = rv(ret)
    # samples
    nl, nu = Or(l0, err < 0), Or(u0, err > 0)
    L = lambda a, b: z3.If(err < 0, a, b)
    U = lambda a, b: z3.If(err > 0, a, b)
    P(ex, s, z3.Implies(first, And(r == 0, l1 == l0, u1 == u0, xl1 == xl0, xu1 == xu0, tl1 == tl0, tu1 == tu0)), "the event is reached: time to go is zero and the bracket is kept")
    P(ex, s, z3.Implies(Not(first), And(xl1 == L(err, xl0), tl1 == L(time, tl0))), "the lower end of the bracket is the latest negative sample")
    P(ex, s, z3.Implies(Not(first), And(xu1 == U(err, xu0), tu1 == U(time, tu0))), "the upper end of the bracket is the latest positive sample")
    both = And(nl, nu)
    ok = Or(mode == ANY, And(mode == INC, slope0 == INC), And(mode == DEC, slope0 == DEC))
    conv = Or(near, it0 + 1 > 20)
    P(ex, s, z3.Implies(And(Not(first), both, ok, conv), r == 0), "close enough, or after too many attempts, time to go is zero")
    P(ex, s, z3.Implies(And(Not(first), both, ok, Not(conv), xu1 != xl1, tu1 != tl1), And(r * (xu1 - xl1) == -err * (tu1 - tl1))), "the estimate is the secant step through the bracket")
    signs = lambda l, xl, u, xu: And(z3.Implies(l, xl < 0), z3.Implies(u, xu > 0))
    P(ex, s, z3.Implies(signs(l0, xl0, u0, xu0), signs(l1, xl1, u1, xu1)), "the ends of the bracket have opposite signs")
    land = lambda a, b: And(time + r >= a, time + r <= b)
    P(ex, s, z3.Implies(And(Not(first), both, ok, Not(conv), tol > 0, signs(l0, xl0, u0, xu0), tu1 != tl1), Or(land(tl1, tu1), land(tu1, tl1))), "the estimate lands inside the bracket")
    P(ex, s, z3.Implies(And(Not(first), Not(And(both, ok))), r == none), "without a bracket in the direction asked for there is no estimate")
    P(ex, s, z3.Implies(And(Not(first), both, ok), And(it1 == it0 + 1, l1, u1)), "an estimate is an iteration and keeps the bracket")
    P(ex, s, z3.Implies(And(Not(first), Not(And(both, ok))), it1 == 0), "iterations start again")
    P(ex, s, z3.Implies(And(Not(first), Not(both)), And(l1 == nl, u1 == nu, z3.Implies(nl, slope1 == INC), z3.Implies(nu, slope1 == DEC))), "the first sign seen gives the direction")
    P(ex, s, z3.Implies(And(Not(first), both, Not(ok)), And(l1 == (mode != INC), u1 == (mode != DEC), slope1 == ANY)), "a crossing in the other direction is discarded")


def regula(ctx):
    ex = ctx.exec(mode="int", fmode="real"); st = State()
    R = Thing(ex, st, "REGULA_FALSI", F)
    v = R.v0; t = z3.Real("time")
    st.add(And(v["lower_set"] >= 0, v["lower_set"] <= 1, v["upper_set"] >= 0, v["upper_set"] <= 1, v["iterations"] >= 0, v["iterations"] < 2 ** 30, v["mode"] >= -1, v["mode"] <= 1, v["function_slope"] >= -1, v["function_slope"] <= 1))
    for o in ex.call(st, ex.find_fn("regula_falsi"), [t, R.this()]):
        s = o.st; g = lambda f: R.get(s, f); ctx.cover(ex, s, "return")
        b = lambda h: (h("lower_set") == 1, rv(h("x_lower")), rv(h("t_lower")), h("upper_set") == 1, rv(h("x_upper")), rv(h("t_upper")))
        spec(ex, s, o.val, t, v["error"], v["error_tol"], v["mode"], v["function_slope"], v["iterations"], v["last_error"], b(lambda f: v[f]), b(g), g("function_slope"), g("iterations"), z3.RealVal(str(BIG)), lambda near, stall: And(v["iterations"] > 0, Or(near, stall)))
        near = And(v["iterations"] > 0, Or(absr(v["error"]) < v["error_tol"], absr(v["last_error"] - v["error"]) < v["error_tol"]))
        est = And(g("iterations") == v["iterations"] + 1)
        P(ex, s, z3.Implies(est, And(rv(g("last_error")) == v["error"], rv(g("last_tgo")) == rv(o.val))), "an estimate and its error are remembered")
        R.frame(s, ("lower_set", "upper_set", "iterations", "x_lower", "t_lower", "x_upper", "t_upper", "delta_time", "last_error", "last_tgo", "function_slope"))
    for nm, a, b, c in (("regula_falsi_set_upper", "x_upper", "t_upper", "upper_set"), ("regula_falsi_set_lower", "x_lower", "t_lower", "lower_set")):
        ex = ctx.exec(mode="int", fmode="real"); st = State(); R = Thing(ex, st, "REGULA_FALSI", F); e = z3.Real("e")
        for o in ex.call(st, ex.find_fn(nm), [t, e, R.this()]):
            s = o.st; ctx.cover(ex, s, "return")
            P(ex, s, And(rv(R.get(s, a)) == e, rv(R.get(s, b)) == t, R.get(s, c) == 1, rv(R.get(s, "error")) == e), "the sample becomes that end of the bracket")
            R.frame(s, (a, b, c, "error"))


def reset(ctx):
    ex = ctx.exec(mode="int", fmode="real"); st = State(); R = Thing(ex, st, "REGULA_FALSI", F); t = z3.Real("time")
    for o in ex.call(st, ex.find_fn("reset_regula_falsi"), [t, R.this()]):
        s = o.st; ctx.cover(ex, s, "return")
        P(ex, s, And(R.get(s, "lower_set") == 0, R.get(s, "upper_set") == 0, R.get(s, "iterations") == 0, rv(R.get(s, "last_error")) == 0), "no samples, no iterations")
        P(ex, s, And(rv(R.get(s, "t_lower")) == t, rv(R.get(s, "t_upper")) == t, rv(R.get(s, "delta_time")) == z3.RealVal(str(BIG))), "the bracket is at the present time")
        R.frame(s, ("lower_set", "upper_set", "t_lower", "t_upper", "x_lower", "x_upper", "delta_time", "iterations", "last_error"))


G = dict(iterations="i32", prev_f_error="double", f_lower="double", x_lower="double", lower_set="i8", f_upper="double", x_upper="double", upper_set="i8", f_error_tol="double", slope_constraint="i32", f_slope="i32")


def roots(ctx):
    ex = ctx.exec(mode="int", fmode="real"); st = State()
    R = Thing(ex, st, "RootFinder", G); v = R.v0; x, e = z3.Reals("x e")
    st.add(And(v["iterations"] >= 0, v["iterations"] < 2 ** 30, v["slope_constraint"] >= -1, v["slope_constraint"] <= 1, v["f_slope"] >= -1, v["f_slope"] <= 1))
    dmax = z3.RealVal(str(int(1.7976931348623157e308)))
    for o in ex.call(st, meth(ex, "RootFinder::find_roots("), [R.this(), x, e]):
        s = o.st; g = lambda f: R.get(s, f); ctx.cover(ex, s, "return")
        b = lambda h: (h("lower_set") == 1, rv(h("f_lower")), rv(h("x_lower")), h("upper_set") == 1, rv(h("f_upper")), rv(h("x_upper")))
        spec(ex, s, o.val, x, e, v["f_error_tol"], v["slope_constraint"], v["f_slope"], v["iterations"], v["prev_f_error"], b(lambda f: v[f]), b(g), g("f_slope"), g("iterations"), dmax, lambda near, stall: Or(near, stall))
        P(ex, s, z3.Implies(g("iterations") == v["iterations"] + 1, rv(g("prev_f_error")) == e), "the error of an estimate is remembered")
        R.frame(s, ("iterations", "prev_f_error", "f_lower", "x_lower", "lower_set", "f_upper", "x_upper", "upper_set", "f_slope"))
    ex = ctx.exec(mode="int", fmode="real"); st = State(); R = Thing(ex, st, "RootFinder", G); tol, c = z3.Real("tol"), z3.Int("c"); st.add(And(c >= -1, c <= 1))
    for o in ex.call(st, meth(ex, "RootFinder::init(double, SlopeConstraint"), [R.this(), tol, c]):
        s = o.st; ctx.cover(ex, s, "return")
        P(ex, s, And(R.get(s, "iterations") == 0, R.get(s, "lower_set") == 0, R.get(s, "upper_set") == 0, R.get(s, "slope_constraint") == c, rv(R.get(s, "f_error_tol")) == tol), "a new search")


CS = [Contract("regula_falsi", regula, [RF], ["regula_falsi", "regula_falsi_set_upper", "regula_falsi_set_lower"]), Contract("reset_regula_falsi", reset, [RR], ["reset_regula_falsi"]),
      Contract("RootFinder", roots, [RO], ["RootFinder::find_roots", "RootFinder::init"])]
CHECK = Check("C14", CS, Native("native/c14.cpp", [RF, RR, RO]))
