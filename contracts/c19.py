"""C19: the near-equality test, in IEEE arithmetic."""
from drv import *
S = "trick_source/trick_utils/compareFloatingPoint/src/compareFloatingPoint.cpp"
FP = {"dbl": (z3.Float64(), 2.0 ** -52, 2.0 ** -1022), "flt": (z3.Float32(), 2.0 ** -23, 2.0 ** -126)}


def P(ex, s, g, t): ex.prove(s, g, t, assume=False)


def contract(k):
    so, eps, mn = FP[k]; V = lambda x: z3.FPVal(x, so); rm = z3.RNE()

    uf = {}

    def arith(op, x, y):
        """IEEE addition and multiplication as some commutative functions that yield NaN just when they have to: no proof here needs to know more"""
        if op not in ("fadd", "fmul"): raise Unsupported("arithmetic " + op)
        if op not in uf: uf[op] = z3.Function(op + k, so, so, so)
        pos = lambda v: z3.If(z3.fpIsZero(v), V(0.0), v)                       # only ever compared, so up to the sign of a zero
        x, y = pos(x), pos(y)
        r = z3.If(z3.fpLEQ(x, y), uf[op](x, y), uf[op](y, x))
        inf, zero = z3.fpIsInf, z3.fpIsZero
        nan = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y), z3.And(inf(x), inf(y), z3.Not(z3.fpEQ(x, y))) if op == "fadd" else z3.Or(z3.And(inf(x), zero(y)), z3.And(zero(x), inf(y))))
        return z3.If(nan, z3.fpNaN(so), z3.If(z3.fpIsNaN(r), V(0.0), r))

    def run(ctx):
        a, b, t, t2 = z3.Consts("A B tolerance tolerance2", so)
        flush = lambda x: z3.If(z3.fpIsSubnormal(x), V(0.0), x)
        special = lambda x: z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x))
        eff = lambda t: z3.If(z3.Or(z3.Not(z3.fpIsNormal(t)), z3.fpLT(t, V(mn / eps))), V(mn / eps), t)
        hi = lambda x, y: z3.If(z3.fpGEQ(x, y), x, y)
        lo = lambda x, y: z3.If(z3.fpGEQ(x, y), y, x)
        near = lambda fa, fb, t: z3.And(z3.fpGEQ(eff(t), arith("fmul", V(eps), hi(z3.fpAbs(fa), z3.fpAbs(fb)))), z3.fpGEQ(arith("fadd", lo(fa, fb), eff(t)), hi(fa, fb)))
        want = lambda a, b, t: z3.And(z3.Not(special(a)), z3.Not(special(b)), z3.Or(z3.fpEQ(flush(a), flush(b)), near(flush(a), flush(b), t)))

        def results(args):
            """condition under which the function returns true; every path returns"""
            ex = ctx.exec(mode="bv", fmode="fp"); ex.fbin0 = lambda st, op, t, x, y: arith(op, x, y); st = State(); ok = []; ex.timeout = 60
            for o in ex.call(st, ex.find_fn(ex.find_demangled("Trick::%s_is_near" % k)[0]), args):
                assert o.kind == "ret"
                v = o.val if not isinstance(o.val, (bool, int)) else z3.BoolVal(bool(o.val))
                if z3.is_bv(v): v = v != 0
                ok.append((o.st, v))
            ctx.cover_some(ex, [s for s, _ in ok], "returns")
            return ex, ok
        ex, ok = results([a, b, t]); st = State()
        for s, v in ok: P(ex, s, v == want(a, b, t), "near exactly when equal, or within a tolerance that is resolvable at their magnitude")
        w = want(a, b, t)
        P(ex, st, z3.Implies(z3.Or(special(a), special(b)), z3.Not(w)), "nothing is near a NaN or an infinity")
        P(ex, st, z3.Implies(z3.And(z3.Not(special(a)), z3.fpEQ(a, b)), w), "a finite value is near itself, whatever the tolerance")
        P(ex, st, z3.Implies(z3.And(w, z3.Not(z3.fpEQ(flush(a), flush(b)))), z3.fpLEQ(hi(flush(a), flush(b)), arith("fadd", lo(flush(a), flush(b)), eff(t)))), "values further apart than the tolerance are not near")
        P(ex, st, w == want(b, a, t), "the order of the two values does not matter")
    return Contract(k + "_is_near", run, [S], ["Trick::%s_is_near" % k], timeout=600, passes="sroa,simplifycfg")


CS = [contract("dbl"), contract("flt")]
CHECK = Check("C19", CS, Native("native/c19.cpp", [S]))
