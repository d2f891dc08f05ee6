"""C18: clock readings are elapsed wall-clock time at the configured ratios."""
from objs import *
import ir
CL = "trick_source/sim_services/Clock/Clock.cpp"
GT = "trick_source/sim_services/Clock/GetTimeOfDayClock.cpp"
SRC = [CL, GT]
C = "Trick::GetTimeOfDayClock"
F = dict(clock_tics_per_sec="i64", rt_clock_ratio="double", sim_tic_ratio="double", ref_time_tics="i64", clk_id="i32")
BIG = 2 ** 52


def P(ex, s, g, t): ex.prove(s, g if not isinstance(g, bool) else z3.BoolVal(g), t, assume=False)


def mk(ctx, **kw):
    ex = ctx.exec(mode="int", fmode="real", **kw); st = State()
    st.ghost["calls"] = Rec()
    K = Thing(ex, st, C, F)
    v = K.v0
    st.add(And(v["rt_clock_ratio"] > 0, v["sim_tic_ratio"] > 0, v["ref_time_tics"] >= -BIG, v["ref_time_tics"] <= BIG, v["clock_tics_per_sec"] > 0))
    K.k = z3.Real("tics_per_wall_tic")
    st.add(And(K.k > 0, K.k == v["rt_clock_ratio"] * v["sim_tic_ratio"]))
    ex.canon = [(v["rt_clock_ratio"] * v["sim_tic_ratio"], K.k)]
    K.W = []

    def virt(ex, st, cal, args, x):
        n = vfun(ex, C, cal.slot[1] if isinstance(cal.slot, tuple) else cal.slot)
        if "wall_clock_time" not in ex.demangle(n): return n
        w = ex.fresh("i64", "wall", st); st.add(And(w >= -BIG, w <= BIG))
        note(st, "wall", (), w)
        d = w - zint(K.get(st, "ref_time_tics")); p = z3.Real("elapsed!%d" % len(K.W)); K.W.append(p)
        return w
    ex.virt["resolve"] = virt
    return ex, st, K


def trunc(x): return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def scaled(ex, s, got, num, text):
    """got is num rounded towards zero"""
    g = rv(got)
    P(ex, s, And(z3.Implies(num >= 0, And(g <= num, num < g + 1)), z3.Implies(num <= 0, And(g >= num, num > g - 1))), text)


def reading(ctx):
    """a reading is the wall-clock time since the reference at the product of both ratios"""
    ex, st, K = mk(ctx); v = K.v0
    for o in ex.call(st, meth(ex, "Trick::Clock::clock_time("), [K.this()]):
        s = o.st; ctx.cover(ex, s, "return"); P(ex, s, names(s) == ["wall"], "the wall clock is read once")
        w = calls(s)[0][2]
        scaled(ex, s, o.val, z3.ToReal(w - v["ref_time_tics"]) * K.k, "the reading is the elapsed wall-clock time times the ratios"); K.frame(s)


def back(k, t, q): return And(z3.Implies(t >= 0, And(rv(q) * k <= t, t < (rv(q) + 1) * k)), z3.Implies(t <= 0, And(rv(q) * k >= t, t > (rv(q) - 1) * k)))


def reset(ctx):
    ex, st, K = mk(ctx); v = K.v0; t = z3.Int("ref"); st.add(And(t >= -BIG, t <= BIG)); k = K.k
    for o in ex.call(st, meth(ex, "Trick::Clock::clock_reset("), [K.this(), t]):
        s = o.st; ctx.cover(ex, s, "return"); P(ex, s, names(s) == ["wall"], "the wall clock is read once")
        w = calls(s)[0][2]; ref = K.get(s, "ref_time_tics"); q = w - ref
        P(ex, s, back(k, z3.ToReal(t), q), "the reference lies the wall-clock length of the given time before now")
        scaled(ex, s, o.val, z3.ToReal(ref) * k, "the reference in tics is returned")
        # what the clock then reads at the same wall-clock time
        e = z3.ToReal(q) * k; r = trunc(e)
        P(ex, s, z3.Implies(t >= 0, And(r <= t, r > t - k - 1)), "the clock then reads the given time, to one wall-clock tic")
        P(ex, s, z3.Implies(t <= 0, And(r >= t, r < t + k + 1)), "the clock then reads the given negative time, to one wall-clock tic")
        K.frame(s, ("ref_time_tics",))


def adjust(ctx):
    ex, st, K = mk(ctx); v = K.v0; t = z3.Int("tics"); st.add(And(t >= -BIG, t <= BIG))
    for o in ex.call(st, meth(ex, "Trick::Clock::adjust_ref_time("), [K.this(), t]):
        s = o.st; ctx.cover(ex, s, "return"); P(ex, s, names(s) == [], "the wall clock is not read")
        P(ex, s, back(K.k, z3.ToReal(t), K.get(s, "ref_time_tics") - v["ref_time_tics"]), "the reference moves by the wall-clock length of the given time"); K.frame(s, ("ref_time_tics",)); P(ex, s, Eq(o.val, 0), "success")


def ratio(ctx):
    ex, st, K = mk(ctx); v = K.v0; r = z3.Real("new_ratio"); k2 = z3.Real("new_tics_per_wall_tic"); st.add(And(r > 0, k2 == r * v["sim_tic_ratio"], k2 > 0)); ex.canon.append((r * v["sim_tic_ratio"], k2))
    t = z3.Int("t_before"); st.add(And(t >= -BIG, t <= BIG)); old = ex.virt["resolve"]

    def virt(ex, st, cal, args, x):
        n = vfun(ex, C, cal.slot[1] if isinstance(cal.slot, tuple) else cal.slot)
        if "Clock::clock_time(" not in ex.demangle(n): return old(ex, st, cal, args, x)
        note(st, "time", (K.get(st, "rt_clock_ratio"), K.get(st, "ref_time_tics")), t); return t
    ex.virt["resolve"] = virt
    ex.patterns.append((re.compile(r"^Trick::Clock::clock_time\("), lambda ex, st, a, x: (note(st, "time", (K.get(st, "rt_clock_ratio"), K.get(st, "ref_time_tics")), t), t)[1]))
    for o in ex.call(st, meth(ex, "Trick::Clock::set_rt_clock_ratio("), [K.this(), r]):
        s = o.st; ctx.cover(ex, s, "return"); P(ex, s, names(s) == ["time", "wall"], "the clock is read before and the wall clock after")
        (g, _), w2 = calls(s, "time")[0][1], calls(s, "wall")[0][2]; ref = K.get(s, "ref_time_tics")
        ex.prove(s, And(rv(g) == v["rt_clock_ratio"], zint(_) == v["ref_time_tics"]), "the clock is read at the ratio in force before", assume=False)
        P(ex, s, Eq(K.get(s, "rt_clock_ratio"), r), "the new ratio is kept")
        P(ex, s, back(k2, z3.ToReal(t), w2 - ref), "the time read before is the time set after")
        K.frame(s, ("ref_time_tics", "rt_clock_ratio"))


def small(ctx):
    ex, st, K = mk(ctx); v = K.v0; n = z3.Int("tic_value"); st.add(And(n > 0, n < 2 ** 31))
    for o in ex.call(st, meth(ex, "Trick::Clock::calc_sim_time_ratio("), [K.this(), n]):
        s = o.st; ctx.cover(ex, s, "return"); ex.prove(s, rv(K.get(s, "sim_tic_ratio")) * z3.ToReal(K.u0("clock_tics_per_sec")) == z3.ToReal(n), "simulation tics per clock tic", assume=False); K.frame(s, ("sim_tic_ratio",))
    ex, st, K = mk(ctx); t = z3.Int("ref"); st.add(And(t >= -BIG, t <= BIG))
    for o in ex.call(st, meth(ex, "Trick::Clock::set_reference("), [K.this(), t]):
        s = o.st; ctx.cover(ex, s, "return"); P(ex, s, Eq(K.get(s, "ref_time_tics"), t), "the reference is the one given"); K.frame(s, ("ref_time_tics",))
    ex, st, K = mk(ctx)
    for o in ex.call(st, meth(ex, "Trick::Clock::get_rt_clock_ratio("), [K.this()]):
        s = o.st; ctx.cover(ex, s, "return"); ex.prove(s, rv(o.val) == K.v0["rt_clock_ratio"], "the ratio in force", assume=False); K.frame(s)


def spin(ctx):
    read = lambda ex: ex.uf("is_a_reading", z3.IntSort(), z3.BoolSort())
    nap = z3.Int("nap")
    ex, st, K = mk(ctx, cands=lambda V: [read(V.ex)(i) for i in V.ints if isz(i)])
    t = z3.Int("req_time"); st.add(And(t >= -BIG, t <= BIG))
    ex.handlers["exec_get_rt_nap"] = lambda ex, st, a, x: ex.fresh("i32", "nap", st)
    for n in ("select", "nanosleep", "usleep", "sched_yield", "sginap"): ex.handlers[n] = lambda ex, st, a, x: ex.fresh("i32", "slept", st)

    def now(ex, st, a, x):
        r = ex.fresh("i64", "reading", st); st.add(read(ex)(r)); return r
    old = ex.virt["resolve"]

    def virt(ex, st, cal, args, x):
        n = vfun(ex, C, cal.slot[1] if isinstance(cal.slot, tuple) else cal.slot)
        if "clock_time" in ex.demangle(n) and "wall" not in ex.demangle(n): return now(ex, st, args, x)
        raise Unsupported("unexpected virtual call in clock_spin")
    ex.virt["resolve"] = virt
    ex.patterns.append((re.compile(r"^Trick::Clock::clock_time\("), now))
    for o in ex.call(st, meth(ex, "Trick::Clock::clock_spin("), [K.this(), t]):
        s = o.st; ctx.cover(ex, s, "return")
        P(ex, s, zint(o.val) >= t, "waiting ends only once the clock has reached the time"); P(ex, s, read(ex)(zint(o.val)), "the time returned was read from the clock"); K.frame(s)


def sync(ctx):
    ex, st, K = mk(ctx); v = K.v0; a = z3.Real("align"); n = z3.Int("tics_per_sec"); m = z3.Real("align_in_wall_tics"); p = z3.Real("align_in_tics")
    st.add(And(a > 0, n > 0, n < 2 ** 31, p == a * z3.ToReal(n), m * K.k == p, m >= 1, m < 2 ** 31)); ex.canon += [(a * z3.ToReal(n), p)]
    fd = ex.fbin0
    q = trunc(m)
    for o in ex.call(st, meth(ex, "Trick::Clock::sync_to_wall_clock("), [K.this(), a, n]):
        s = o.st; ctx.cover(ex, s, "return"); P(ex, s, names(s) == ["wall"], "the wall clock is read once")
        w = calls(s)[0][2]; ref = K.get(s, "ref_time_tics"); j = z3.Int("j")
        s.add(w >= 0)
        d = z3.ToInt(p / K.k)
        P(ex, s, And(ref > w, ref <= w + d), "the reference is the next alignment point"); P(ex, s, ref % d == 0, "the reference is a multiple of the alignment"); K.frame(s, ("ref_time_tics",))


def wall(ctx):
    ex, st, K = mk(ctx); sec, ns = z3.Ints("sec nsec"); st.add(And(sec >= 0, sec < 2 ** 40, ns >= 0, ns < 10 ** 9))

    def gettime(ex, st, a, x):
        note(st, "gettime", a)
        ex.store(st, a[1], ir_i64, sec); ex.store(st, Ptr(a[1].obj, ex.off(a[1]) + 8), ir_i64, ns); return 0
    ir_i64 = ir.T("i", 64)
    ex.handlers["clock_gettime"] = gettime
    for o in ex.call(st, meth(ex, "Trick::GetTimeOfDayClock::wall_clock_time("), [K.this()]):
        s = o.st; ctx.cover(ex, s, "return"); v = zint(o.val)
        P(ex, s, And(1000 * v <= sec * 10 ** 9 + ns, sec * 10 ** 9 + ns < 1000 * (v + 1)), "microseconds of the system clock"); P(ex, s, len(names(s)) == 1 and Eq(calls(s)[0][1][0], K.v0["clk_id"]), "of the clock chosen"); K.frame(s)


N = lambda *a: ["Trick::Clock::" + x for x in a]
CS = [Contract("clock_time", reading, SRC, N("clock_time")), Contract("clock_reset", reset, SRC, N("clock_reset")), Contract("adjust_ref_time", adjust, SRC, N("adjust_ref_time")), Contract("set_rt_clock_ratio", ratio, SRC, N("set_rt_clock_ratio", "clock_time", "clock_reset")),
      Contract("ratios", small, SRC, N("calc_sim_time_ratio", "set_reference", "get_rt_clock_ratio")), Contract("clock_spin", spin, SRC, N("clock_spin")), Contract("sync_to_wall_clock", sync, SRC, N("sync_to_wall_clock", "set_reference")), Contract("wall_clock_time", wall, SRC, ["Trick::GetTimeOfDayClock::wall_clock_time"])]
CHECK = Check("C18", CS, Native("native/c18.cpp", SRC))
