"""C16: real-time frames are timed, counted and acted on exactly."""
from objs import *
RS = "trick_source/sim_services/RealtimeSync/RealtimeSync.cpp"
CK = "trick_source/sim_services/Clock/GetTimeOfDayClock.cpp"
IT = "trick_source/sim_services/Timer/ITimer.cpp"
SRC = [RS, CK, IT]
C = "Trick::RealtimeSync"
F = dict(enable_flag="i8", disable_flag="i8", active="i8", freeze_frame="i64", freeze_time_tics="i64", frame_overrun_cnt="i32", total_overrun="i32", rt_max_overrun_cnt="i32",
         rt_max_overrun_time="double", rt_max_overrun_time_tics="i64", rt_overrun_freeze="i8", frame_sched_time="i64", frame_time="double", frame_overrun_time="i64", frame_overrun="double",
         last_clock_time="i64", tics_per_sec="i32", align_sim_to_wall_clock="i8", align_tic_mult="double", freeze_shutdown="i8", sim_start_time="i64", sim_end_init_time="i64", sim_end_time="i64", actual_run_ratio="double",
         rt_clock="ptr", sleep_timer="ptr", default_clock="ptr")
BIG = 2 ** 60
RUN, FREEZE = 5, 1


def mk(ctx):
    """a real-time synchronisation object with an arbitrary clock, timer and executive"""
    ex = ctx.exec(mode="int", fmode="real"); st = State()
    st.ghost["calls"] = Rec()
    R = Thing(ex, st, C, F)
    for f in ("frame_sched_time", "last_clock_time", "freeze_frame", "freeze_time_tics"): st.add(And(R.v0[f] >= -BIG, R.v0[f] <= BIG))
    st.add(R.v0["tics_per_sec"] > 0)
    R.clk, R.tim, R.dclk = (ex.new_obj(n, 4096, None, "obj") for n in ("clock", "timer", "default_clock"))
    for f, o in (("rt_clock", R.clk), ("sleep_timer", R.tim), ("default_clock", R.dclk)): ex.setf(st, R.o, f, Ptr(o), "ptr")
    R.ratio = z3.Real("clock_ratio"); st.add(R.ratio > 0)
    E = R.E = {}
    for n, k in (("exec_get_software_frame", "double"), ("exec_get_freeze_frame", "double"), ("exec_get_time_tic_value", "i32"), ("exec_get_time_tics", "i64"), ("exec_get_freeze_time_tics", "i64"), ("exec_get_mode", "i32")):
        E[n] = z3.Real(n) if k == "double" else z3.Int(n)
        if k != "double": st.add(And(E[n] >= rng(k)[0], E[n] <= rng(k)[1]))
        ex.handlers[n] = lambda ex, st, a, x, v=E[n]: v
    st.add(And(E["exec_get_time_tics"] >= -BIG, E["exec_get_time_tics"] <= BIG, E["exec_get_freeze_time_tics"] >= -BIG, E["exec_get_freeze_time_tics"] <= BIG))
    ex.handlers["message_publish"] = lambda ex, st, a, x: 0
    ex.handlers["snprintf"] = lambda ex, st, a, x: ex.fresh("i32", "n", st)
    external(ex, "exec_freeze", "i32")
    ex.handlers["exec_terminate_with_return"] = lambda ex, st, a, x: (note(st, "terminate", a), Outcome("halt", st))[1]
    ex.patterns += [(re.compile(r"^Trick::Clock::get_rt_clock_ratio\("), lambda ex, st, a, x: R.ratio),
                    (re.compile(r"^Trick::Clock::adjust_ref_time\("), lambda ex, st, a, x: (note(st, "clock.adjust", a), 0)[1]),
                    (re.compile(r"^Trick::Clock::set_rt_clock_ratio\("), lambda ex, st, a, x: (note(st, "clock.set_ratio", a), 0)[1]),
                    (re.compile(r"^Trick::Timer::set_active\("), lambda ex, st, a, x: (note(st, "timer.set_active", a), 0)[1]),
                    (re.compile(r"^Run_Ratio<.*>::operator\(\)"), lambda ex, st, a, x: (note(st, "ratio", a), a[0])[1]),
                    (re.compile(r"^Run_Ratio<.*>::operator double"), lambda ex, st, a, x: ex.fresh("double", "run_ratio", st)),
                    (re.compile(r"^Run_Ratio<.*>::Run_Ratio"), lambda ex, st, a, x: 0)]
    ex.assumed.add("the displayed run ratio (class Run_Ratio) is not under contract")
    for g in ("__cxa_guard_acquire", "__cxa_guard_release"): ex.handlers[g] = lambda ex, st, a, x: 0

    def virt(ex, st, cal, args, x):
        o, slot = args[0].obj, cal.slot[1] if isinstance(cal.slot, tuple) else cal.slot
        if o is R.o: return vfun(ex, C, slot)
        k = {R.clk.id: "clock", R.dclk.id: "default", R.tim.id: "timer"}[o.id]
        n = vname(ex, "Trick::ITimer" if k == "timer" else "Trick::GetTimeOfDayClock", slot)
        r = 0
        if n in ("clock_time", "clock_spin", "clock_reset", "wall_clock_time"):
            r = ex.fresh("i64", n, st); st.add(And(r >= -BIG, r <= BIG))
        elif n != "get_name": r = ex.fresh("i32", n, st)
        note(st, k + "." + n, args[1:], r)
        return r
    ex.virt["resolve"] = virt
    return ex, st, R


QUIET = ("timer.set_active", "ratio")


def seq(s): return [n for n in names(s) if n not in QUIET]


def go(ctx, name, args=lambda st: []):
    ex, st, R = mk(ctx)
    a = args(st)
    outs = ex.call(st, meth(ex, "Trick::RealtimeSync::%s(" % name), [R.this()] + a)
    return ex, R, a, outs


def P(ex, s, g, t): ex.prove(s, g if not isinstance(g, bool) else z3.BoolVal(g), t, assume=False)


def frac(ex, s, v, num, den, text):
    """v == num / den"""
    ex.prove(s, rv(v) * rv(den) == rv(num), text, assume=False)


def arg1(s, n): return calls(s, n)[0][1][0]


def tics(n, name="sim_time"):
    def f(st):
        v = z3.Int(name); st.add(And(v >= -n, v <= n)); return [v]
    return f


def monitor(ctx):
    ex, R, (t,), outs = go(ctx, "rt_monitor", tics(BIG))
    act, en, dis = (R.v0[f] != 0 for f in ("active", "enable_flag", "disable_flag"))
    cnt1, tot1 = z3.If(R.u0("frame_overrun_cnt") + 1 == 2 ** 32, 0, R.u0("frame_overrun_cnt") + 1), z3.If(R.u0("total_overrun") + 1 == 2 ** 32, 0, R.u0("total_overrun") + 1)
    fz = R.v0["rt_overrun_freeze"] != 0
    for o in outs:
        s = o.st; n = names(s)
        ctx.cover(ex, s, "path")
        P(ex, s, n[0] == "clock.clock_time", "the clock is read first")
        c = zint(calls(s)[0][2])
        over = c > t
        lim = Or(cnt1 >= R.u0("rt_max_overrun_cnt"), c - t >= R.v0["rt_max_overrun_time_tics"])
        P(ex, s, R.get(s, "frame_sched_time") == c - R.v0["last_clock_time"], "the frame took the clock time since the last frame end")
        frac(ex, s, R.get(s, "frame_time"), c - R.v0["last_clock_time"], R.v0["tics_per_sec"], "the frame time in seconds is the same time")
        froze, term = n.count("exec_freeze"), n.count("terminate")
        P(ex, s, froze + term <= 1, "at most one action")
        P(ex, s, Eq(z3.BoolVal(term == 1), And(act, over, lim, Not(fz))), "the simulation is terminated exactly when a limit is reached and freezing is not asked for")
        P(ex, s, Eq(z3.BoolVal(froze == 1), And(act, over, lim, fz)), "the simulation is frozen exactly when a limit is reached and freezing is asked for")
        if term:
            P(ex, s, Eq(arg1(s, "terminate"), -1), "an overrun ends the run with an error status"); P(ex, s, o.kind == "halt", "termination"); 
            P(ex, s, And(R.getu(s, "frame_overrun_cnt") == cnt1, R.getu(s, "total_overrun") == tot1), "the overrun that ends the run is counted")
            continue
        P(ex, s, o.kind == "ret", "the function returns"); P(ex, s, Eq(o.val, 0), "success is returned")
        P(ex, s, And(R.get(s, "enable_flag") == z3.If(And(Not(act), en, t < 0), 1, 0), R.get(s, "disable_flag") == 0), "requests to enable and disable are taken once; enabling before time zero stays requested")
        P(ex, s, R.get(s, "active") == z3.If(act, z3.If(dis, 0, 1), z3.If(And(en, t >= 0), 1, 0)), "real time is active from the frame at which it was enabled to the one at which it was disabled")
        P(ex, s, Eq(R.get(s, "freeze_shutdown"), z3.If(z3.BoolVal(froze == 1), z3.IntVal(1), R.v0["freeze_shutdown"])), "a freeze for overruns is remembered")
        P(ex, s, R.getu(s, "frame_overrun_cnt") == z3.If(Not(act), R.u0("frame_overrun_cnt"), z3.If(over, cnt1, 0)), "consecutive overruns are counted, an on-time frame starts again at none")
        P(ex, s, R.getu(s, "total_overrun") == z3.If(And(act, over), tot1, R.u0("total_overrun")), "every overrun is counted in total")
        P(ex, s, R.get(s, "frame_overrun_time") == z3.If(act, c - t, R.v0["frame_overrun_time"]), "the overrun is the clock time past simulation time")
        sp = [k for k in n if k in ("timer.pause", "clock.clock_spin", "timer.stop", "timer.reset", "timer.start")]
        P(ex, s, Eq(z3.BoolVal("clock.clock_spin" in sp), act), "the clock is waited for exactly in real time")
        for e in calls(s, "clock.clock_spin"): P(ex, s, Eq(e[1][0], t), "the clock is waited for up to simulation time")
        P(ex, s, sp.count("clock.clock_spin") <= 1, "the clock is waited for once")
        P(ex, s, Eq(z3.BoolVal("timer.pause" in sp), And(act, Not(over))), "the sleep timer is waited for exactly in an on-time frame")
        P(ex, s, Eq(z3.BoolVal("timer.stop" in sp), And(act, over)), "the sleep timer is stopped in an overrun")
        P(ex, s, Eq(z3.BoolVal("timer.reset" in sp), And(act, Not(over))), "the sleep timer is reset after an on-time frame")
        if "timer.pause" in sp and "clock.clock_spin" in sp: P(ex, s, sp.index("timer.pause") < sp.index("clock.clock_spin"), "the timer is waited for before the clock")
        for e in calls(s, "timer.reset"): frac(ex, s, e[1][0], R.E["exec_get_software_frame"], R.ratio, "the timer is reset to one frame of wall clock time")
        rs = "clock.clock_reset" in n
        P(ex, s, Eq(z3.BoolVal(rs), And(Not(act), en, t >= 0)), "the clock is set exactly when real time starts")
        for e in calls(s, "clock.clock_reset"): P(ex, s, Eq(e[1][0], t), "the clock is set to simulation time")
        for e in calls(s, "timer.start"): frac(ex, s, e[1][0], R.E["exec_get_software_frame"], R.ratio, "the timer is started for one frame of wall clock time")
        rd = calls(s, "clock.clock_time")
        P(ex, s, Eq(R.get(s, "last_clock_time"), rd[-1][2]), "the next frame is timed from the last clock reading")
        P(ex, s, z3.Implies(act, z3.BoolVal(len(rd) == 1)), "one reading in real time")
        R.frame(s, ("frame_sched_time", "frame_time", "enable_flag", "disable_flag", "active", "freeze_shutdown", "frame_overrun_cnt", "total_overrun", "frame_overrun_time", "frame_overrun", "last_clock_time", "actual_run_ratio", "rt_max_overrun_time_tics"))


def started(ex, s, R, act, t, frame):
    """effect of start_realtime on the recorded calls"""
    n = names(s)
    on = And(act, t >= 0)
    P(ex, s, Eq(z3.BoolVal("clock.clock_reset" in n), on), "the clock is set exactly when real time is active and time is not negative")
    for e in calls(s, "clock.clock_reset"): P(ex, s, Eq(e[1][0], t), "the clock is set to the reference time")
    P(ex, s, Eq(z3.BoolVal("timer.start" in n), on), "the timer is started with the clock")
    for e in calls(s, "timer.start"): frac(ex, s, e[1][0], frame, R.ratio, "the timer runs for one frame of wall clock time")
    P(ex, s, R.get(s, "active") == z3.If(on, 1, 0), "before time zero real time is put off")
    P(ex, s, R.get(s, "enable_flag") == z3.If(And(act, t < 0), 1, R.v0["enable_flag"]), "real time that was put off is asked for again")
    P(ex, s, Eq(R.get(s, "last_clock_time"), calls(s, "clock.clock_time")[-1][2]), "the first frame is timed from now")


def start(ctx):
    f = z3.Real("frame")
    ex, R, (f, t), outs = go(ctx, "start_realtime", lambda st: [f] + tics(BIG)(st))
    for o in outs:
        started(ex, o.st, R, R.v0["active"] != 0, t, f); P(ex, o.st, Eq(o.val, 0), "success"); ctx.cover(ex, o.st, "return")
        R.frame(o.st, ("active", "enable_flag", "last_clock_time", "rt_max_overrun_time_tics"))


def sleep_timer(ctx):
    ex, st, R = mk(ctx)
    tps = R.v0["tics_per_sec"]; p = z3.Real("limit_in_tics"); ex.canon = [(R.v0["rt_max_overrun_time"] * z3.ToReal(tps), p)]
    big = R.v0["rt_max_overrun_time"] > z3.RealVal(str(int(1e36)))
    st.add(Or(big, And(p >= 0, p < 2 ** 62)))
    on = And(R.v0["active"] != 0, R.E["exec_get_time_tics"] >= 0)
    for o in ex.call(st, meth(ex, "Trick::RealtimeSync::start_sleep_timer("), [R.this()]):
        s = o.st; m = R.get(s, "rt_max_overrun_time_tics"); ctx.cover(ex, s, "return")
        P(ex, s, z3.Implies(Not(on), m == R.v0["rt_max_overrun_time_tics"]), "nothing is done while real time is off")
        P(ex, s, z3.Implies(And(on, big), m == MAXLL), "no limit stays no limit in tics")
        P(ex, s, z3.Implies(And(on, Not(big)), And(z3.ToReal(m) <= p, p < z3.ToReal(m) + 1)), "the limit in tics is the limit in seconds times the tic rate, rounded down")
        P(ex, s, Eq(z3.BoolVal("timer.init" in names(s)), on), "the timer is initialised exactly when real time is on")
        R.frame(s, ("rt_max_overrun_time_tics",))


def freezing(ctx):
    f = z3.Real("frame")
    # entering freeze
    ex, st, R = mk(ctx)
    tps = R.v0["tics_per_sec"]; p = z3.Real("frame_in_tics"); ex.canon = [(f * z3.ToReal(tps), p)]; st.add(And(p >= 0, p <= 2 ** 60))
    for o in ex.call(st, meth(ex, "Trick::RealtimeSync::freeze_init("), [R.this(), f]):
        s = o.st; m = R.get(s, "freeze_frame"); ctx.cover(ex, s, "return")
        P(ex, s, And(z3.ToReal(m) <= p, p < z3.ToReal(m) + 1), "the freeze frame in tics is the freeze frame in seconds times the tic rate, rounded down")
        P(ex, s, R.get(s, "freeze_time_tics") == R.E["exec_get_time_tics"], "freeze time starts at simulation time")
        P(ex, s, Eq(z3.BoolVal("timer.start" in names(s)), R.v0["active"] != 0), "the timer is started exactly when real time is on")
        for e in calls(s, "timer.start"): frac(ex, s, e[1][0], f, R.ratio, "the timer runs for one freeze frame of wall clock time")
        R.frame(s, ("freeze_frame", "freeze_time_tics"))
    # one freeze frame
    ex, R, (f,), outs = go(ctx, "freeze_pause", lambda st: [f])
    act, en, dis = (R.v0[q] != 0 for q in ("active", "enable_flag", "disable_flag"))
    t, fr = R.v0["freeze_time_tics"], R.v0["freeze_frame"]
    for o in outs:
        s = o.st; n = names(s); ctx.cover(ex, s, "return")
        P(ex, s, Eq(z3.BoolVal("clock.clock_spin" in n), act), "the clock is waited for exactly in real time")
        P(ex, s, Eq(z3.BoolVal("timer.pause" in n), act), "the timer is waited for exactly in real time")
        for e in calls(s, "clock.clock_spin"): P(ex, s, Eq(e[1][0], t + fr), "up to the end of the freeze frame")
        for e in calls(s, "timer.reset"): frac(ex, s, e[1][0], f, R.ratio, "the timer is reset to one freeze frame of wall clock time")
        P(ex, s, R.get(s, "freeze_time_tics") == z3.If(act, t + fr, t), "freeze time advances by one freeze frame")
        P(ex, s, R.get(s, "active") == z3.If(act, z3.If(dis, 0, 1), z3.If(And(en, t >= 0), 1, 0)), "real time can be switched on and off while frozen")
        P(ex, s, And(R.get(s, "enable_flag") == z3.If(And(Not(act), en, t < 0), 1, 0), R.get(s, "disable_flag") == 0), "requests are taken once")
        P(ex, s, Eq(z3.BoolVal("clock.clock_reset" in n), And(Not(act), en, t >= 0)), "the clock is set exactly when real time starts")
        for e in calls(s, "clock.clock_reset"): P(ex, s, Eq(e[1][0], t), "the clock is set to freeze time")
        R.frame(s, ("freeze_time_tics", "active", "enable_flag", "disable_flag", "last_clock_time", "rt_max_overrun_time_tics"))
    # leaving freeze
    ex, R, (t, f), outs = go(ctx, "unfreeze", lambda st: tics(BIG)(st) + [f])
    act, sh = R.v0["active"] != 0, R.v0["freeze_shutdown"] != 0
    for o in outs:
        s = o.st; n = names(s); ctx.cover(ex, s, "path")
        P(ex, s, Eq(z3.BoolVal("terminate" in n), And(act, sh)), "leaving a freeze for overruns ends the run, leaving any other does not")
        P(ex, s, o.kind == ("halt" if "terminate" in n else "ret"), "termination")
        if o.kind == "halt": continue
        P(ex, s, Eq(z3.BoolVal("clock.adjust" in n), act), "the clock reference is moved exactly in real time")
        for e in calls(s, "clock.adjust"): P(ex, s, And(Eq(e[1][1], R.v0["freeze_time_tics"] - t)), "by the time spent frozen")
        P(ex, s, Eq(z3.BoolVal("timer.start" in n), act), "the timer is started")
        for e in calls(s, "timer.start"): frac(ex, s, e[1][0], f, R.ratio, "the timer runs for one frame of wall clock time")
        P(ex, s, Eq(R.get(s, "last_clock_time"), calls(s, "clock.clock_time")[-1][2]), "the first frame is timed from now")
        R.frame(s, ("last_clock_time",))


def others(ctx):
    ex, R, a, outs = go(ctx, "enable")
    for o in outs: P(ex, o.st, R.get(o.st, "enable_flag") == 1, "enable is a request"); R.frame(o.st, ("enable_flag",)); ctx.cover(ex, o.st, "return")
    ex, R, a, outs = go(ctx, "disable")
    for o in outs: P(ex, o.st, R.get(o.st, "disable_flag") == 1, "disable is a request"); R.frame(o.st, ("disable_flag",)); ctx.cover(ex, o.st, "return")
    ex, R, a, outs = go(ctx, "is_active")
    for o in outs: P(ex, o.st, Eq(o.val, R.v0["active"] != 0) if not isinstance(o.val, int) else z3.BoolVal(True), "is_active"); R.frame(o.st); ctx.cover(ex, o.st, "return")
    # restart
    ex, R, (t,), outs = go(ctx, "restart", tics(BIG, "reference"))
    mode = R.E["exec_get_mode"]
    for o in outs:
        s = o.st; n = names(s); ctx.cover(ex, s, "return")
        P(ex, s, n[0] == "clock.clock_reset" and calls(s)[0][1][0] is t, "the clock is set to the reference time first")
        on = And(R.v0["active"] != 0, z3.Or(mode == FREEZE, And(mode == RUN, t >= 0)))
        P(ex, s, Eq(z3.BoolVal("timer.start" in n), on), "the timer is started when running or frozen in real time")
        for e in calls(s, "timer.start"): ex.prove(s, rv(e[1][0]) * R.ratio == z3.If(mode == RUN, R.E["exec_get_software_frame"], R.E["exec_get_freeze_frame"]), "for the frame of the mode", assume=False)
        P(ex, s, z3.Implies(mode == FREEZE, R.get(s, "freeze_time_tics") == R.E["exec_get_time_tics"]), "freeze time starts at simulation time")
    # change of ratio
    r1 = z3.Real("new_ratio")
    ex, R, (r1,), outs = go(ctx, "set_rt_clock_ratio", lambda st: [r1])
    for o in outs:
        s = o.st; ctx.cover(ex, s, "return")
        P(ex, s, [n for n in names(s) if n != "timer.set_active"] == ["clock.set_ratio"] and zb(calls(s, "clock.set_ratio")[0][1][0].same(Ptr(R.clk))) is not False, "the ratio is given to the clock")
        ex.prove(s, rv(calls(s, "clock.set_ratio")[0][1][1]) == r1, "unchanged", assume=False); R.frame(s)
    # change of clock
    ex, st, R = mk(ctx); new = ex.new_obj("new_clock", 4096, None, "obj")
    old = ex.virt["resolve"]

    def v(ex, st, cal, args, x):
        if args[0].obj is new:
            r = ex.fresh("i32", "init", st); note(st, "new." + vname(ex, "Trick::GetTimeOfDayClock", cal.slot[1] if isinstance(cal.slot, tuple) else cal.slot), args[1:], r); return r
        return old(ex, st, cal, args, x)
    ex.virt["resolve"] = v
    for o in ex.call(st, meth(ex, "Trick::RealtimeSync::change_clock("), [R.this(), Ptr(new)]):
        s = o.st; ctx.cover(ex, s, "return"); P(ex, s, names(s) == ["new.clock_init"], "the new clock is initialised")
        r = calls(s)[0][2]; now = R.get(s, "rt_clock")
        P(ex, s, Eq(z3.BoolVal(now.obj is new), zint(r) == 0), "the clock is changed exactly when the new one can be initialised"); P(ex, s, Eq(o.val, r), "its status is returned")
        R.frame(s)


N = lambda *a: ["Trick::RealtimeSync::" + x for x in a]
CS = [Contract("rt_monitor", monitor, SRC, N("rt_monitor", "start_realtime", "start_sleep_timer")), Contract("start_realtime", start, SRC, N("start_realtime")), Contract("start_sleep_timer", sleep_timer, SRC, N("start_sleep_timer")),
      Contract("freeze", freezing, SRC, N("freeze_init", "freeze_pause", "unfreeze")), Contract("other methods", others, SRC, N("enable", "disable", "is_active", "restart", "set_rt_clock_ratio", "change_clock"))]
CHECK = Check("C16", CS, Native("native/c16.cpp", [RS]))
