"""C02: periodic dispatch: due jobs are returned, rescheduled by their cycle, and the next event time is exact."""
from jobq import *
from c01 import mk, positions, walk_cands, next_job, unchanged_list, SRC, G
BIG = 2 ** 61


def find_next(ctx):
    ex = mk(ctx)
    st = State()
    Qx = Q(ex, st)
    J, L, n, c0 = Qx.jobs, Qx.L, Qx.n, Qx.curr
    s0 = st.fork()
    for f in Jobs.KIND: J.arr(s0, f)
    t = z3.Int("time_tics"); st.add(And(t >= 0, t <= BIG))
    j, a = z3.Int("_fj"), z3.Int("_fa")
    inv = z3.Function("position", z3.IntSort(), z3.IntSort())
    st.addq(z3.ForAll([j], z3.Implies(And(0 <= j, j < n), inv(L.get(j)) == j), patterns=[L.get(j)]))     # a job is in the queue at most once
    nx, cy, sp = (lambda a, f=f: J.get(s0, f, a) for f in ("next_tics", "cycle_tics", "stop_tics"))
    off, sy = (lambda a: J.get(s0, "disabled", a) != 0), (lambda a: J.get(s0, "system_job_class", a) != 0)
    st.addq(z3.ForAll([j], And(cy(L.get(j)) >= 0, cy(L.get(j)) <= BIG), patterns=[L.get(j)]))
    F = lambda a: z3.If(And(nx(a) == t, Not(sy(a))), z3.If(nx(a) + cy(a) > sp(a), MAXLL, nx(a) + cy(a)), nx(a))
    rel = lambda a: Or(And(nx(a) == t, Not(sy(a))), And(nx(a) != t, nx(a) > t))
    skip = lambda a: Or(nx(a) != t, off(a))

    def facts(s, c):
        H, m = J.arr(s, "next_tics"), zint(Qx.njt(s))
        return [("rescheduled so far", z3.ForAll([a], H.get(a) == z3.If(And(c0 <= inv(a), inv(a) < c, a == L.get(inv(a))), F(a), nx(a)), patterns=[H.get(a)] if isinstance(H, Arr) else [])),
                ("next call time is a lower bound", z3.ForAll([j], z3.Implies(And(c0 <= j, j < c, rel(L.get(j))), m <= F(L.get(j))), patterns=[L.get(j)])),
                ("next call time never grows", m <= Qx.t0),
                ("next call time is attained", Or(m == Qx.t0, z3.Exists([j], And(c0 <= j, j < c, rel(L.get(j)), F(L.get(j)) == m))))]
    w = walk_cands(Qx, c0, skip)
    ex.cands_fn = lambda V: w(V) + facts(V.st, zint(Qx.cur(V.st)))
    ex.loop_policy = "inv"
    seen = []
    for o in ex.call(st, meth(ex, "Trick::ScheduledJobQueue::find_next_job("), [Qx.this(), t]):
        s = o.st; seen.append(s)
        v = zint(ex.addr(o.val)) if isinstance(o.val, Ptr) else zint(o.val)
        cu = zint(Qx.cur(s)); q = z3.Int("q"); x = z3.Int("x")
        ex.prove(s, z3.Implies(v == 0, cu == n), "NULL only at the end of the queue", assume=False)
        ex.prove(s, z3.Implies(v != 0, And(cu > c0, cu <= n, v == L.get(cu - 1), nx(v) == t, Not(off(v)))), "the job returned is enabled and due now", assume=False)
        ex.prove(s, z3.Implies(And(c0 <= q, q < cu - z3.If(v == 0, 0, 1)), skip(L.get(q))), "no enabled job that is due is skipped", assume=False)
        H, m = J.arr(s, "next_tics"), zint(Qx.njt(s))
        lq = L.get(q)
        ex.prove(s, z3.Implies(And(c0 <= q, q < cu, nx(lq) == t, Not(sy(lq))), H.get(lq) == z3.If(t + cy(lq) > sp(lq), MAXLL, t + cy(lq))), "a job that is due is next due one cycle later, or never once past its stop time", assume=False)
        ex.prove(s, z3.Implies(And(0 <= q, q < n, Or(q < c0, q >= cu, nx(lq) != t, sy(lq))), H.get(lq) == nx(lq)), "the call time of every other job in the queue stays", assume=False)
        ex.prove(s, z3.Implies(x != L.get(inv(x)), H.get(x) == nx(x)), "jobs outside the queue are not touched", "frame", assume=False)
        ex.prove(s, z3.Implies(And(c0 <= q, q < cu, Or(H.get(lq) > t, And(nx(lq) == t, Not(sy(lq))))), m <= H.get(lq)), "the next event is not later than the next call of any job passed", assume=False)
        ex.prove(s, m <= Qx.t0, "the next event is not later than before", assume=False)
        ex.prove(s, Or(m == Qx.t0, z3.Exists([j], And(c0 <= j, j < cu, F(L.get(j)) == m))), "the next event is a real one", assume=False)
        ex.prove(s, And(Eq(Qx.size(s), n)), "size unchanged", "frame", assume=False)
        ex.prove(s, z3.Implies(And(q >= 0, q < n), Qx.elem(s, q) == lq), "the jobs stay in place", "frame", assume=False)
        Qx.same_jobs(ex, s, ("next_tics",))
    ctx.cover_some(ex, seen, "return")


def call_time(ctx):
    ex = mk(ctx); st = State(); Qx = Q(ex, st)
    J, L, n, c0 = Qx.jobs, Qx.L, Qx.n, Qx.curr
    s0 = st.fork()
    for f in Jobs.KIND: J.arr(s0, f)
    nx = lambda a: J.get(s0, "next_tics", a)
    j = z3.Int("_fj")

    def cands(V):
        m = zint(Qx.njt(V.st)); c = []
        vals = [("field", m)] + [(nm, zint(v)) for nm, v in V.all_pos()]
        for nm, v in positions(V):
            v = zint(v)
            c += [("%s >= curr" % (nm,), v >= c0), ("%s <= size" % (nm,), v <= n)]
            for mn, mv in vals:
                if mn == nm: continue
                c += [("%s: lower bound before %s" % (mn, nm), z3.ForAll([j], z3.Implies(And(c0 <= j, j < v), mv <= nx(L.get(j))), patterns=[L.get(j)])), ("%s does not grow" % (mn,), mv <= Qx.t0),
                      ("%s attained before %s" % (mn, nm), Or(mv == Qx.t0, z3.Exists([j], And(c0 <= j, j < v, nx(L.get(j)) == mv))))]
        return c
    ex.cands_fn = cands; ex.loop_policy = "inv"
    for o in ex.call(st, meth(ex, "Trick::ScheduledJobQueue::get_next_job_call_time("), [Qx.this()]):
        s = o.st; q = z3.Int("q"); v = zint(o.val)
        ex.prove(s, And(v == zint(Qx.njt(s)), v <= Qx.t0), "the stored next call time is returned", assume=False)
        ex.prove(s, z3.Implies(And(c0 <= q, q < n), v <= nx(L.get(q))), "no later than the next call of any job that is still to be looked at", assume=False)
        ex.prove(s, Or(v == Qx.t0, z3.Exists([j], And(c0 <= j, j < n, nx(L.get(j)) == v))), "it is the call time of a job, or the time stored before", assume=False)
        unchanged_list(ex, s, Qx); ex.prove(s, Eq(Qx.cur(s), c0), "current index", "frame", assume=False); Qx.same_jobs(ex, s)
        ctx.cover(ex, s, "return")


def test_time(ctx):
    ex = mk(ctx); st = State(); Qx = Q(ex, st)
    J = Qx.jobs
    x = ex.fresh("ptr", "job", st); xa = zint(ex.addr(x)); st.add(xa > 0); st.add(J.ranges(st, xa))
    t = z3.Int("time_tics"); st.add(And(t >= -2 ** 63, t <= MAXLL))
    n0 = J.get(st, "next_tics", xa)
    for o in ex.call(st, meth(ex, "Trick::ScheduledJobQueue::test_next_job_call_time("), [Qx.this(), x, t]):
        s = o.st
        ex.prove(s, Eq(Qx.njt(s), z3.If(And(n0 > t, n0 < Qx.t0), n0, Qx.t0)), "a call in the future that comes first becomes the next event", assume=False)
        unchanged_list(ex, s, Qx); ex.prove(s, Eq(Qx.cur(s), Qx.curr), "current index", "frame", assume=False); Qx.same_jobs(ex, s)
        ctx.cover(ex, s, "return")


def job_methods(ctx):
    def go(name, args=lambda ex, st: [], fields={}):
        ex = mk(ctx); st = State()
        J = Jobs(ex)
        x = ex.fresh("ptr", "job", st); xa = zint(ex.addr(x)); st.add(xa > 0); st.add(J.ranges(st, xa))
        s0 = st.fork()
        for f in Jobs.KIND: J.arr(s0, f)
        a = args(ex, st)
        for o in ex.call(st, meth(ex, "Trick::JobData::%s(" % name), [x] + a): yield ex, J, s0, o, xa, a

    def frame(ex, J, s0, s, xa, changed):
        y = z3.Int("y")
        for f in Jobs.KIND:
            now, was = J.get(s, f, y), J.get(s0, f, y)
            if f in changed: ex.prove(s, z3.Implies(y != xa, now == was), "no other job's %s changes" % f, "frame", assume=False)
            else: ex.prove(s, now == was, "%s does not change" % f, "frame", assume=False)
        ctx.cover(ex, s, "return")

    for ex, J, s0, o, x, a in go("enable"): ex.prove(o.st, J.get(o.st, "disabled", x) == 0, "enable"); frame(ex, J, s0, o.st, x, ["disabled"])
    for ex, J, s0, o, x, a in go("disable"): ex.prove(o.st, J.get(o.st, "disabled", x) == 1, "disable"); frame(ex, J, s0, o.st, x, ["disabled"])

    def tic(ex, st):
        g = ex.global_obj("_ZN5Trick7JobData14time_tic_valueE", ex.modules[0] if "_ZN5Trick7JobData14time_tic_valueE" in ex.modules[0].globals else ex.modules[1])
        v = z3.Int("time_tic_value"); st.add(And(v > 0, v <= 2 ** 40))
        ex.store(st, Ptr(g), ir.I(64), v)
        return v
    for nm in ("calc_cycle_tics", "set_cycle"):
        ex = mk(ctx); st = State(); J = Jobs(ex)
        x = ex.fresh("ptr", "job", st); xa = zint(ex.addr(x)); st.add(xa > 0); st.add(J.ranges(st, xa))
        s0 = st.fork()
        for f in Jobs.KIND: J.arr(s0, f)
        tv = tic(ex, st)
        c = z3.Real("cycle")
        P = z3.Real("cycle_times_rate")
        ex.canon = [(c * z3.ToReal(tv), P)]
        st.add(And(c >= 0, P >= 0, P <= 2 ** 61))
        if nm == "calc_cycle_tics": c0 = J.get(st, "cycle", xa); st.add(c0 == c); ex.canon.append((c0 * z3.ToReal(tv), P))
        for o in ex.call(st, meth(ex, "Trick::JobData::%s(" % nm), [x] + ([c] if nm == "set_cycle" else [])):
            v = J.get(o.st, "cycle_tics", xa)
            ex.prove(o.st, And(2 * z3.ToReal(v) - 1 <= 2 * P, 2 * P < 2 * z3.ToReal(v) + 1), "the cycle in tics is the cycle in seconds times the tic rate, rounded to the nearest", assume=False)
            ex.prove(o.st, J.get(o.st, "cycle", xa) == c, "cycle", assume=False)
            frame(ex, J, s0, o.st, xa, ["cycle_tics"] + (["cycle"] if nm == "set_cycle" else []))

    t = z3.Int("t")

    def targ(ex, st): st.add(And(t >= 0, t <= BIG)); return [t]
    ex = mk(ctx); st = State(); J = Jobs(ex)
    x = ex.fresh("ptr", "job", st); xa = zint(ex.addr(x)); st.add(xa > 0); st.add(J.ranges(st, xa))
    s0 = st.fork()
    for f in Jobs.KIND: J.arr(s0, f)
    n0, cy = J.get(s0, "next_tics", xa), J.get(s0, "cycle_tics", xa)
    st.add(And(t >= 0, t <= BIG, cy >= 0, cy <= BIG))
    k = z3.Int("k")
    for o in ex.call(st, meth(ex, "Trick::JobData::set_next_call_time("), [x, t]):
        v = J.get(o.st, "next_tics", xa)
        ex.prove(o.st, z3.Implies(n0 <= t, v == t), "a job that is due is called now", assume=False)
        ex.prove(o.st, z3.Implies(And(n0 > t, cy == 0), v == n0), "a job without a cycle keeps its call time", assume=False)
        ex.prove(o.st, z3.Implies(And(n0 > t, cy > 0), And(v > t, v <= t + cy, v % cy == 0)), "a periodic job is next called at the first multiple of its cycle after now", assume=False)
        frame(ex, J, s0, o.st, xa, ["next_tics"])

    # checkpoint restore
    ex = mk(ctx, patterns=[(re.compile(r"std::__cxx11::basic_string<.*::operator="), lambda ex, st, a, x: a[0])]); st = State(); J = Jobs(ex)
    x = ex.fresh("ptr", "job", st); xa = zint(ex.addr(x)); st.add(xa > 0); st.add(J.ranges(st, xa))
    y = ex.fresh("ptr", "from", st); ya = zint(ex.addr(y)); st.add(And(ya > 0, ya != xa)); st.add(J.ranges(st, ya))
    s0 = st.fork()
    for f in Jobs.KIND: J.arr(s0, f)
    kept = ("id", "sim_object_id", "job_class")
    for o in ex.call(st, meth(ex, "Trick::JobData::copy_from_checkpoint("), [x, y]):
        for f in Jobs.KIND:
            if f in kept: ex.prove(o.st, J.get(o.st, f, xa) == J.get(s0, f, xa), "%s is kept" % f, assume=False)
            else: ex.prove(o.st, J.get(o.st, f, xa) == J.get(s0, f, ya), "%s is restored" % f, assume=False)
        frame(ex, J, s0, o.st, xa, [f for f in Jobs.KIND if f not in kept])


CS = [Contract("find_next_job", find_next, SRC, ["Trick::ScheduledJobQueue::find_next_job"]),
      next_job("find_job", lambda J, s, j, t: Or(J.get(s, "next_tics", j) != t, J.get(s, "disabled", j) != 0), lambda ex, st: [(z3.Int("time_tics"), st.add(And(z3.Int("time_tics") >= -2 ** 63, z3.Int("time_tics") <= MAXLL)))[0]]),
      Contract("get_next_job_call_time", call_time, SRC, ["Trick::ScheduledJobQueue::get_next_job_call_time"]),
      Contract("test_next_job_call_time", test_time, SRC, ["Trick::ScheduledJobQueue::test_next_job_call_time"]),
      Contract("job call times", job_methods, SRC, ["Trick::JobData::" + x for x in ("enable", "disable", "calc_cycle_tics", "set_cycle", "set_next_call_time", "copy_from_checkpoint")])]
CHECK = Check("C02", CS, Native("native/jobq.cpp", SRC, flags=("-DWANT=2",)))
