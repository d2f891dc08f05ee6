"""C05: freezes, runs and stops take effect exactly as requested."""
from execu import *
from c01 import G, mk
from c04 import PQ, I_, R_
from ir import I
SRC = [ED + "Executive_freeze.cpp", ED + "Executive_stop.cpp", ED + "Executive_run.cpp", ED + "Executive_freeze_loop.cpp", ED + "Executive_init_freeze_scheduled.cpp", ED + "Executive.cpp", SQ, JD]
NOCMD, FREEZE, RUN, EXITC = 0, 2, 3, 10
MFREEZE, MRUN = 1, 5
Z = lambda x: z3.IntVal(x)


def same_queue(ex, s, s0, X, Q, what):
    """the pending times are those of s0"""
    i = z3.Int("q")
    A, lo, n = Q.get(s, Q.key); B, lo0, n0 = Q.get(s0, Q.key)
    ex.prove(s, And(n - lo == n0 - lo0, z3.Implies(And(0 <= i, i < n0 - lo0), A.get(lo + i) == B.get(lo0 + i))), what, "frame", assume=False)


def setup(ctx, job=True):
    ex = mk(ctx); st = State(); X = Executive(ex, st)
    Q = PQ(ex, st, X.o, ex.foff(EX, "freeze_times"), "freeze_time")
    i = z3.Int("_ri"); st.addq(FA([i], And(Q.a0.get(i) <= MAXLL, Q.a0.get(i) >= -2 ** 63), [Q.a0.get(i)]))
    ex.handlers["message_publish"] = lambda ex, s, a, x: 0
    ex.patterns.append((re.compile(r"^Trick::Executive::get_sim_time\("), lambda ex, s, a, x: ex.fresh("double", "now", s)))
    J = Jobs(ex)
    if job:
        fj = z3.Int("freeze_job"); st.add(And(fj > 0, fj < 2 ** 62)) if job != "maybe" else st.add(And(fj >= 0, fj < 2 ** 62))
        ex.setf(st, X.o, "freeze_job", ex.dec(fj), "ptr"); st.add(J.ranges(st, fj))
    else: fj = Z(0)
    s0 = st.fork()
    for f in J.KIND: J.arr(s0, f)
    for f in X.TK: X.tharr(s0, f)
    return ex, st, X, Q, J, fj, s0


def jobs_frame(ex, s, s0, J, fj=None):
    a = z3.Int("a")
    for f in J.KIND: ex.prove(s, z3.Implies(a != fj if f == "next_tics" and fj is not None else True, J.get(s, f, a) == J.get(s0, f, a)), "no other job's %s changes" % f, "frame", assume=False)


def at(ctx):
    """freeze(t)"""
    ex, st, X, Q, J, fj, s0 = setup(ctx)
    t = z3.Real("seconds"); P = z3.Real("seconds_in_tics")
    tv = X.v0["time_tic_value"]; st.add(And(tv >= 1, P == t * z3.ToReal(tv), P > -2 ** 61, P < 2 ** 61))
    new = z3.If(P >= 0, z3.ToInt(P), -z3.ToInt(-P)); now = X.v0["time_tics"]
    seen = False
    for o in ex.call(st, meth(ex, "Trick::Executive::freeze(double"), [X.this(), t]):
        s = o.st; A, lo, n = Q.get(s, Q.key); i = z3.Int("q"); pl = z3.Int("place")
        ex.prove(s, Eq(o.val, 0), "success", assume=False)
        if ex.known(s, new > now):
            s2 = s.fork()
            ex.prove(s, n - lo == Q.n0 + 1, "one more freeze is pending", assume=False)
            # the place of the new time is known to the ghost queue: the sorted sequence of the old times and the new one
            ex.prove(s, z3.Exists([pl], And(0 <= pl, pl <= Q.n0, A.get(lo + pl) == new, z3.ForAll([i], z3.Implies(And(0 <= i, i < Q.n0), z3.If(i < pl, A.get(lo + i) == Q.a0.get(i), A.get(lo + i + 1) == Q.a0.get(i)))))),
                     "the pending freezes are those there were and the one asked for", assume=False)
            ex.prove(s, J.get(s, "next_tics", fj) == z3.If(new < J.get(s0, "next_tics", fj), new, J.get(s0, "next_tics", fj)), "the freeze job is called at the earliest of its time and the new one", assume=False)
            ctx.cover(ex, s2, "accepted"); seen = True
        else:
            ex.prove(s, new <= now, "a freeze in the future is accepted", assume=False)
            same_queue(ex, s, s0, X, Q, "a freeze in the past changes no pending one")
            ex.prove(s, J.get(s, "next_tics", fj) == J.get(s0, "next_tics", fj), "a freeze in the past leaves the freeze job alone", assume=False)
            ctx.cover(ex, s, "refused")
        X.frame(s, s0); jobs_frame(ex, s, s0, J, fj)


def sched(ctx):
    """sched_freeze_to_exec_command"""
    ex, st, X, Q, J, fj, s0 = setup(ctx, "maybe")
    eof = z3.Int("end_of_frame"); st.add(And(eof >= 0, eof <= 1))
    now = X.v0["time_tics"]; act = Or(eof == 1, X.v0["freeze_on_frame_boundary"] == 0)

    def cands(V):
        s = V.st; A, lo, n = Q.get(s, Q.key); i = z3.Int("_ci")
        cmd = X.get(s, "exec_command")
        return [("count", And(0 <= lo, lo <= n, n == Q.n0)), ("times kept", FA([i], A.get(i) == Q.a0.get(i), [A.get(i)])), ("taken are due", FA([i], z3.Implies(And(0 <= i, i < lo), Q.a0.get(i) <= now), [Q.a0.get(i)])),
                ("command", z3.If(lo > 0, cmd == FREEZE, cmd == X.v0["exec_command"]))]
    ex.cands_fn = cands; ex.loop_policy = "inv"
    for o in ex.call(st, meth(ex, "Trick::Executive::sched_freeze_to_exec_command("), [X.this(), eof == 1]):
        s = o.st; A, lo, n = Q.get(s, Q.key); i = z3.Int("q")
        Pv = lambda g, nm: ex.prove(s, g, nm, assume=False)
        Pv(Eq(o.val, 0), "success")
        Pv(And(0 <= lo, n == Q.n0, z3.Implies(And(lo <= i, i < n), A.get(i) == Q.a0.get(i))), "freezes that are not due yet stay pending")
        Pv(z3.Implies(And(act, lo <= i, i < n), Q.a0.get(i) > now), "every freeze that is due is taken")
        Pv(z3.Implies(And(0 <= i, i < lo), And(act, Q.a0.get(i) <= now)), "only freezes that are due are taken, and only at a frame boundary when asked for")
        Pv(X.get(s, "exec_command") == z3.If(lo > 0, FREEZE, X.v0["exec_command"]), "a freeze is commanded exactly when one was due")
        Pv(z3.Implies(And(act, fj != 0), J.get(s, "next_tics", fj) == z3.If(lo < n, A.get(lo), MAXLL)), "the freeze job is called next at the earliest pending freeze")
        Pv(z3.Implies(Not(act), J.get(s, "next_tics", fj) == J.get(s0, "next_tics", fj)), "the freeze job keeps its time within a frame")
        X.frame(s, s0, ("exec_command",)); jobs_frame(ex, s, s0, J, fj); ctx.cover(ex, s, "return")


def commands(ctx):
    def run(name, args, changed, post, text, pre=None):
        ex, st, X, Q, J, fj, s0 = setup(ctx, "maybe")
        if pre: pre(st, X)
        for o in ex.call(st, meth(ex, "Trick::Executive::" + name), [X.this()] + args):
            s = o.st
            ex.prove(s, Eq(o.val, 0), "%s: success" % text[0], assume=False)
            for f, g in post(X): ex.prove(s, X.get(s, f) == g, "%s: %s" % (text[0], text[1]), assume=False)
            X.frame(s, s0, changed); jobs_frame(ex, s, s0, J); same_queue(ex, s, s0, X, Q, "%s: the pending freezes stay" % text[0]); ctx.cover(ex, s, "return")
    run("freeze()", [], ("async_freeze_command",), lambda X: [("async_freeze_command", 1)], ("freeze", "a freeze is requested for the end of the frame"))
    ac = lambda X: X.v0["async_freeze_command"] != 0
    run("async_freeze_to_exec_command(", [], ("async_freeze_command", "exec_command"), lambda X: [("async_freeze_command", 0), ("exec_command", z3.If(ac(X), FREEZE, X.v0["exec_command"]))],
        ("end of frame", "a requested freeze is commanded once, and nothing else"))
    run("run()", [], ("exec_command",), lambda X: [("exec_command", RUN)], ("run", "run is commanded"))
    run("stop()", [], ("exec_command",), lambda X: [("exec_command", EXITC)], ("stop", "the end is commanded"))
    t = z3.Real("seconds"); P = z3.Real("seconds_in_tics")

    def pre(st, X): st.add(And(X.v0["time_tic_value"] >= 1, P == t * z3.ToReal(X.v0["time_tic_value"]), P > -2 ** 61, P < 2 ** 61))
    tr = z3.If(P >= 0, z3.ToInt(P), -z3.ToInt(-P))
    run("stop(double", [t], ("terminate_time",), lambda X: [("terminate_time", tr)], ("stop at a time", "the run ends at that time"), pre)
    run("set_terminate_time(", [t], ("terminate_time",), lambda X: [("terminate_time", tr)], ("termination time", "the run ends at that time"), pre)


def init_frozen(ctx):
    ex, st, X, Q, J, fj, s0 = setup(ctx, "maybe")
    fq = zint(X.embedded("freeze_scheduled_queue")); a_ = z3.Int("_qa")
    st.ghost.update(walk=G(Z(0)), job=G(Z(0)), nt=G(Z(-1)), seen=GA(Arr("seen0", I_, I_)))
    st.addq(FA([a_], st.ghost["seen"].get(a_) == 0, [st.ghost["seen"].get(a_)]))
    g = lambda s, k: s.ghost[k].v

    def reset(ex, s, a, x):
        ex.prove(s, zint(ex.addr(a[0])) == fq, "the jobs reset are those called in freeze", assume=False); s.ghost["walk"] = G(Z(1)); return None

    def nxt(ex, s, a, x):
        ex.prove(s, And(zint(ex.addr(a[0])) == fq, g(s, "walk") == 1), "the queue is walked from its first job", assume=False)
        s2 = s.fork(); s2.ghost["walk"] = G(Z(2))
        v = ex.fresh("ptr", "job", s); va = zint(ex.addr(v)); s.add(va > 0); s.add(J.ranges(s, va)); s.ghost["seen"] = s.ghost["seen"].set(va, Z(1))
        return [Outcome("ret", s, v), Outcome("ret", s2, NULL)]

    def setn(ex, s, a, x):
        ex.prove(s, zint(ex.addr(a[0])) == fq, "the next event of the freeze queue is set", assume=False); s.ghost["nt"] = G(zint(a[1])); return 0
    Pn = lambda n: re.compile(r"^Trick::%s\(" % n)
    ex.patterns += [(Pn("ScheduledJobQueue::reset_curr_index"), reset), (Pn("ScheduledJobQueue::get_next_job"), nxt), (Pn("ScheduledJobQueue::set_next_job_call_time"), setn)]

    def cands(V):
        s = V.st; N = J.arr(s, "next_tics"); S = s.ghost["seen"]
        return [("walk = 1", g(s, "walk") == 1), ("nt = 0", g(s, "nt") == 0), ("flags", FA([a_], And(S.get(a_) >= 0, S.get(a_) <= 1), [S.get(a_)])), ("reset", FA([a_], N.get(a_) == z3.If(S.get(a_) == 1, 0, J.get(s0, "next_tics", a_)), [N.get(a_)]))]
    ex.cands_fn = cands; ex.loop_policy = "inv"
    for o in ex.call(st, meth(ex, "Trick::Executive::init_freeze_scheduled("), [X.this()]):
        s = o.st; a = z3.Int("a"); Pv = lambda g_, nm: ex.prove(s, g_, nm, assume=False)
        Pv(And(Eq(o.val, 0), g(s, "walk") == 2), "every job of the freeze queue is reset")
        Pv(J.get(s, "next_tics", a) == z3.If(s.ghost["seen"].get(a) == 1, 0, J.get(s0, "next_tics", a)), "exactly the jobs of the freeze queue are due when the freeze begins")
        Pv(And(X.get(s, "freeze_time_tics") == 0, X.get(s, "freeze_frame_count") == 0, X.get(s, "next_freeze_frame_check_tics") == X.v0["freeze_frame_tics"], g(s, "nt") == 0), "the freeze clock starts at zero")
        X.frame(s, s0, ("freeze_time_tics", "freeze_frame_count", "next_freeze_frame_check_tics"))
        for f in J.KIND:
            if f != "next_tics": Pv(J.get(s, f, a) == J.get(s0, f, a), "no job's %s changes" % f)
        ctx.cover(ex, s, "return")


START, INIT, TIMED, ADV, CLOCK, END, OVER, UNFREEZE, DONE = range(9)


def frozen(ctx):
    """freeze_loop"""
    ex = mk(ctx); st = State(); X = Executive(ex, st, big=2 ** 60); J = Jobs(ex)
    ex.path_limit = 40000
    qa = {n: zint(X.embedded(n)) for n in ("freeze_init_queue", "freeze_scheduled_queue", "freeze_queue", "unfreeze_queue")}
    EK = X.EK
    F = lambda s, f: X.get(s, f)
    TRACK = ("mode", "exec_command", "freeze_time_tics", "next_freeze_frame_check_tics", "freeze_frame_count")
    for f in TRACK: st.ghost["x." + f] = G(X.v0[f])
    for k in ("ph", "q", "job", "last", "rc", "tested", "nx"): st.ghost[k] = G(Z(0))
    g = lambda s, k: s.ghost[k].v

    def sg(s, **kw):
        for k, v in kw.items(): s.ghost[k] = G(v if isz(v) else Z(v))

    def prove(s, x, nm): ex.prove(s, x, nm, assume=True)
    x_ = lambda s, f: g(s, "x." + f)

    def snap(s):
        for f in TRACK: s.ghost["x." + f] = G(F(s, f))
    keeps = lambda s, *ch: And(*[F(s, f) == x_(s, f) for f in TRACK if f not in ch])

    def havoc(s):
        for f, k in EK.items():
            if k[0] != "i" or f == "freeze_frame_count": continue
            v = z3.Int(ex.fresh_name(f)); n = int(k[1:])
            s.add(And(v >= -2 ** (n - 1), v < 2 ** (n - 1)) if k != "i8" else And(v >= 0, v <= 1))
            if f.endswith("_tics"): s.add(And(v >= -2 ** 60, v <= 2 ** 60))
            if f in X.ENUM: s.add(Or(*[v == y for y in X.ENUM[f]]))
            ex.setf(s, X.o, f, v, k)
        for f in J.KIND: s.heap[("F", "class." + CJ, ex.foff(CJ, f))] = ex.new_arr(f, J.KIND[f])
        snap(s)
    quiet = lambda s: And(g(s, "q") == 0, g(s, "job") == 0, g(s, "rc") == 0, g(s, "last") == 0)
    settled = lambda s: Or(g(s, "last") == 0, g(s, "tested") == 1, And(g(s, "ph") == TIMED, J.get(s, "system_job_class", g(s, "last")) == 0))

    def after(s):
        """after the freeze jobs: what the command does; the mode and command expected"""
        c, m = x_(s, "exec_command"), x_(s, "mode")
        return z3.If(c == RUN, Z(MRUN), m), z3.If(Or(c == RUN, c == FREEZE), Z(NOCMD), c)

    def round_(s, goes_on):
        """the loop goes on (or ends) after one round of freeze jobs, or goes on from its start"""
        m, c = after(s)
        prove(s, quiet(s), "a round ends only when all its jobs were called")
        prove(s, Or(g(s, "ph") != OVER, x_(s, "exec_command") != EXITC), "the end is commanded: the run ends")
        prove(s, z3.If(g(s, "ph") == OVER, And(F(s, "mode") == m, F(s, "exec_command") == c, keeps(s, "mode", "exec_command")), keeps(s)), "a run command ends the freeze, another freeze command is cleared, nothing else changes")
        prove(s, (F(s, "mode") == MFREEZE) if goes_on else (F(s, "mode") != MFREEZE), "the freeze lasts exactly as long as the mode says")

    def reset(ex, s, a, x):
        q = z3.simplify(zint(ex.addr(a[0]))); is_ = lambda n: q.eq(z3.simplify(qa[n]))
        ph = g(s, "ph")
        if is_("freeze_init_queue"):
            prove(s, And(ph == START, F(s, "mode") == MFREEZE, keeps(s, "mode")), "the mode is freeze before the freeze_init jobs are called")
            sg(s, ph=INIT)
        elif is_("freeze_scheduled_queue"):
            prove(s, Or(ph == ADV, ph == OVER, ph == CLOCK), "the jobs called in freeze follow the freeze_init jobs or a round")
            prove(s, And(z3.Implies(ph != CLOCK, True), F(s, "freeze_time_tics") < F(s, "next_freeze_frame_check_tics")), "they are called up to the end of the freeze frame")
            s1 = s
            prove(s1, z3.If(ph == CLOCK, And(keeps(s1), quiet(s1)), True), "nothing changes between two times of the freeze clock")
            if not ex.known(s1, ph == CLOCK): round_guard(s1, True)
            sg(s, ph=TIMED)
        elif is_("freeze_queue"):
            prove(s, Or(ph == CLOCK, ph == ADV, ph == OVER), "the freeze jobs follow the jobs of the freeze frame")
            prove(s, And(quiet(s), x_(s, "freeze_time_tics") >= x_(s, "next_freeze_frame_check_tics")), "the freeze jobs are called when the freeze clock reaches the end of the freeze frame")
            prove(s, And(F(s, "next_freeze_frame_check_tics") == x_(s, "next_freeze_frame_check_tics") + F(s, "freeze_frame_tics"), F(s, "freeze_frame_count") == x_(s, "freeze_frame_count") + 1), "the next freeze frame ends one frame later, and a frame is counted")
            m, c = after(s)
            prove(s, z3.If(ph == OVER, And(x_(s, "exec_command") != EXITC, F(s, "mode") == m, F(s, "exec_command") == c, m == MFREEZE, keeps(s, "mode", "exec_command", "next_freeze_frame_check_tics", "freeze_frame_count")),
                           And(keeps(s, "next_freeze_frame_check_tics", "freeze_frame_count"), Or(ph == CLOCK, F(s, "mode") == MFREEZE))), "nothing else changes")
            sg(s, ph=END)
        elif is_("unfreeze_queue"):
            prove(s, Or(ph == OVER, ph == ADV), "the unfreeze jobs follow a round of freeze jobs")
            round_(s, False)
            sg(s, ph=UNFREEZE)
        else: raise Unsupported("walk over an unexpected queue")
        snap(s); sg(s, q=q, last=0, tested=1)
        return None

    def round_guard(s, goes_on):
        ph = g(s, "ph"); m, c = after(s)
        prove(s, Or(ph == CLOCK, quiet(s)), "a round ends only when all its jobs were called")
        prove(s, Or(ph != OVER, x_(s, "exec_command") != EXITC), "the end is commanded: the run ends")
        prove(s, z3.If(ph == OVER, And(F(s, "mode") == m, F(s, "exec_command") == c, keeps(s, "mode", "exec_command")), keeps(s)), "a run command ends the freeze, another freeze command is cleared, nothing else changes")
        prove(s, Or(ph == CLOCK, F(s, "mode") == MFREEZE), "the freeze lasts exactly as long as the mode says")

    def found(ex, s, a, timed):
        q = zint(ex.addr(a[0])); qs = z3.simplify(q); is_ = lambda n: qs.eq(z3.simplify(qa[n]))
        prove(s, g(s, "q") == q, "a queue is walked from its first job")
        prove(s, And(g(s, "job") == 0, Or(g(s, "rc") == 0, g(s, "ph") == INIT, g(s, "ph") == UNFREEZE)), "every job found is called, and a freeze job that fails ends the run")
        prove(s, is_("freeze_scheduled_queue") == timed, "periodic jobs are called when due, freeze jobs every frame")
        if timed: prove(s, And(Eq(a[1], F(s, "freeze_time_tics")), settled(s)), "the jobs called are those of the freeze clock; the next call time of a job that sets it itself is looked at after the call")
        prove(s, keeps(s), "nothing changes between jobs")
        s2 = s.fork()
        ph = INIT if is_("freeze_init_queue") else None
        nph = ADV if is_("freeze_init_queue") else TIMED + 100 if timed else OVER if is_("freeze_queue") else DONE
        sg(s2, ph=nph, q=0, last=0, tested=1, rc=0)
        v = ex.fresh("ptr", "job", s); va = zint(ex.addr(v)); s.add(va > 0); s.add(J.ranges(s, va))
        sg(s, job=va, last=0, tested=0)
        return [Outcome("ret", s, v), Outcome("ret", s2, NULL)]
    WALKED = TIMED + 100

    def nexttime(ex, s, a, x):
        prove(s, And(zint(ex.addr(a[0])) == qa["freeze_scheduled_queue"], g(s, "ph") == WALKED), "the next time is asked for when the jobs of this time were called")
        r = z3.Int(ex.fresh_name("next_event")); s.add(And(r >= -2 ** 60, r <= 2 ** 60)); sg(s, nx=r, ph=WALKED + 1); return r

    def setnext(ex, s, a, x):
        n, e = g(s, "nx"), x_(s, "next_freeze_frame_check_tics")
        prove(s, And(zint(ex.addr(a[0])) == qa["freeze_scheduled_queue"], g(s, "ph") == WALKED + 1), "the freeze queue's next event is reset after it was read")
        prove(s, And(F(s, "freeze_time_tics") == z3.If(e < n, e, n), keeps(s, "freeze_time_tics")), "the freeze clock moves to the earlier of the next event and the end of the freeze frame")
        prove(s, Or(zint(a[1]) == F(s, "freeze_time_tics") + F(s, "freeze_frame_tics"), zint(a[1]) > F(s, "freeze_time_tics")), "the next event is looked for behind the present one")
        snap(s); sg(s, ph=CLOCK); return 0

    def jcall(ex, s, a, x):
        jb = zint(ex.addr(a[0]))
        prove(s, And(g(s, "job") == jb, jb != 0, Or(g(s, "rc") == 0, g(s, "ph") == INIT, g(s, "ph") == UNFREEZE)), "each job found is called, once")
        prove(s, keeps(s), "nothing changes between jobs")
        havoc(s)
        rc = z3.Int(ex.fresh_name("rc")); s.add(And(rc >= -2 ** 31, rc < 2 ** 31)); sg(s, job=0, rc=rc, last=jb, tested=0)
        return rc

    def test(ex, s, a, x):
        hit = And(g(s, "q") == zint(ex.addr(a[0])), g(s, "last") == zint(ex.addr(a[1])), F(s, "freeze_time_tics") == zint(a[2]))
        s.ghost["tested"] = G(z3.If(hit, Z(1), g(s, "tested"))); return 0

    def term(ex, s, a, x):
        rc = zint(a[1])
        prove(s, Or(And(g(s, "rc") != 0, rc == g(s, "rc"), Or(g(s, "ph") == TIMED, g(s, "ph") == END)), And(rc == 0, g(s, "ph") == OVER, x_(s, "exec_command") == EXITC, quiet(s))), "the run ends with the status of a freeze job that failed, or with success when commanded after a round")
        return Outcome("throw", s, NULL)
    Pn = lambda n: re.compile(r"^Trick::%s\(" % n)
    ex.patterns += [(Pn("ScheduledJobQueue::reset_curr_index"), reset), (Pn("ScheduledJobQueue::find_next_job"), lambda ex, s, a, x: found(ex, s, a, True)), (Pn("ScheduledJobQueue::get_next_job"), lambda ex, s, a, x: found(ex, s, a, False)),
                    (Pn("ScheduledJobQueue::test_next_job_call_time"), test), (Pn("JobData::call"), jcall), (Pn("Executive::exec_terminate_with_return"), term), (Pn("ScheduledJobQueue::get_next_job_call_time"), nexttime),
                    (Pn("ScheduledJobQueue::set_next_job_call_time"), setnext), (Pn("Executive::get_sim_time"), lambda ex, s, a, x: ex.fresh("double", "now", s)), (re.compile(r"std::__cxx11::basic_string<.*::c_str"), lambda ex, s, a, x: ex.fresh("ptr", "str", s))]
    ex.handlers["exec_terminate_with_return"] = lambda ex, s, a, x: term(ex, s, [None] + a, x)
    ex.handlers["message_publish"] = lambda ex, s, a, x: 0

    def cands(V):
        s = V.st; c = []
        for k, vals in (("ph", list(range(9)) + [WALKED]), ("q", list(qa.values()) + [Z(0)]), ("job", [Z(0)]), ("last", [Z(0)]), ("rc", [Z(0)])):
            for n, y in enumerate(vals): c.append(("%s = %d" % (k, n), g(s, k) == y))
        c.append(("between rounds", Or(g(s, "ph") == ADV, g(s, "ph") == OVER))); c.append(("between times", Or(g(s, "ph") == ADV, g(s, "ph") == OVER, g(s, "ph") == CLOCK)))
        c.append(("commands", And(*[Or(*[F(s, f) == y for y in X.ENUM[f]]) for f in X.ENUM])))
        c.append(("settled", settled(s))); c.append(("unchanged", keeps(s))); c.append(("quiet", quiet(s)))
        m, e = after(s)
        c.append(("command taken", z3.If(g(s, "ph") == OVER, And(x_(s, "exec_command") != EXITC, F(s, "mode") == m, F(s, "exec_command") == e, keeps(s, "mode", "exec_command")), keeps(s))))
        c.append(("in freeze", Or(g(s, "ph") == CLOCK, F(s, "mode") == MFREEZE)))
        return c
    ex.cands_fn = cands; ex.loop_policy = "inv"
    n = 0; rets = []
    for o in ex.call(st, meth(ex, "Trick::Executive::freeze_loop("), [X.this()]):
        if o.kind == "ret":
            ex.prove(o.st, And(Eq(o.val, 0), g(o.st, "ph") == DONE), "the freeze ends with the unfreeze jobs", assume=False); ex.prove(o.st, keeps(o.st), "nothing changes after them", assume=False); rets.append(o.st)
        else: n += 1; ctx.cover(ex, o.st, "end of run %d" % n)
    ctx.cover_some(ex, rets, "return")


CS = [Contract("freeze(t)", at, SRC, ["Trick::Executive::freeze(double)"]), Contract("sched_freeze_to_exec_command", sched, SRC, ["Trick::Executive::sched_freeze_to_exec_command"]),
      Contract("commands", commands, SRC, ["Trick::Executive::freeze()", "Trick::Executive::async_freeze_to_exec_command", "Trick::Executive::run", "Trick::Executive::stop()", "Trick::Executive::stop(double)", "Trick::Executive::set_terminate_time"]),
      Contract("init_freeze_scheduled", init_frozen, SRC, ["Trick::Executive::init_freeze_scheduled"]), Contract("freeze_loop", frozen, SRC, ["Trick::Executive::freeze_loop"])]
NAT = SRC + [ED + "Executive_get_sim_time.cpp", ED + "ExecutiveException.cpp", ED + "Threads.cpp", ED + "ThreadTrigger.cpp", ED + "Threads_set_amf_cycle_tics.cpp", "trick_source/sim_services/ThreadBase/ThreadBase.cpp", "trick_source/sim_services/SimObject/SimObject.cpp"]
CHECK = Check("C05", CS, Native("native/c05.cpp", NAT))
