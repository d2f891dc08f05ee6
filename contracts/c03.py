"""C03: simulation time moves to the earliest pending work, and the main loop does everything that is due."""
from execu import *
from c01 import G, mk, vfun
SRC = [ED + "Executive_advance_sim_time.cpp", ED + "Executive_scheduled_thread_sync.cpp", ED + "Executive_isThreadReadyToRun.cpp", ED + "Executive_thread_sync.cpp", ED + "Executive_get_sim_time.cpp", ED + "Executive.cpp", ED + "Threads.cpp", SQ, JD]
BIG = 2 ** 61


def bounds(X, V):
    c = []
    for nm, v in V.all_pos():
        v = zint(v)
        c += [("%s >= 0" % (nm,), v >= 0), ("%s >= 1" % (nm,), v >= 1), ("%s <= threads" % (nm,), v <= X.m)]
    return c


def flags(X, V, s0):
    """child_complete only goes up"""
    j = z3.Int("_qj")
    cc, c0, ce = X.tharr(V.st, "child_complete"), X.tharr(s0, "child_complete"), X.tharr(V.entry, "child_complete")
    r = [("a finished thread stays finished", FA([j], z3.Implies(c0.get(j) == 1, cc.get(j) == 1), patterns=[cc.get(j)])),
         ("flags", FA([j], z3.Implies(And(c0.get(j) >= 0, c0.get(j) <= 1), And(cc.get(j) >= 0, cc.get(j) <= 1)), patterns=[cc.get(j)]))]
    if V.entry is not V.st: r.append(("a thread finished before the loop stays finished", FA([j], z3.Implies(ce.get(j) == 1, cc.get(j) == 1), patterns=[cc.get(j)])))
    else: r.append(("a thread finished before the loop stays finished", True))
    return r


def wait(ctx):
    """scheduled_thread_sync"""
    ex = mk(ctx); ex.volatile = rely
    st = State(); X = Executive(ex, st)
    T = X.T; j = z3.Int("_qj")
    s0 = st.fork()
    for f in X.TK: X.tharr(s0, f)
    wanted = lambda a: And(X.th(s0, "enabled", a) != 0, X.th(s0, "process_type", a) == SCHED)

    def cands(V):
        c = bounds(X, V) + flags(X, V, s0)
        for nm, v in V.all_pos(): c.append(("all synchronous threads before %s have finished" % (nm,), FA([j], z3.Implies(And(1 <= j, j < zint(v), wanted(T.get(j))), X.th(V.st, "child_complete", T.get(j)) == 1), patterns=[T.get(j)])))
        return c
    ex.cands_fn = cands; ex.loop_policy = "inv"
    for o in ex.call(st, meth(ex, "Trick::Executive::scheduled_thread_sync("), [X.this()]):
        s = o.st; q, a = z3.Ints("q a")
        ex.prove(s, z3.Implies(And(1 <= q, q < X.m, wanted(T.get(q))), X.th(s, "child_complete", T.get(q)) == 1), "returns only when every enabled synchronous thread has finished", assume=False)
        ex.prove(s, z3.Implies(X.th(s0, "child_complete", a) == 1, X.th(s, "child_complete", a) == 1), "finished threads stay finished", "frame", assume=False)
        X.frame(s, s0, (), ("child_complete",)); ctx.cover(ex, s, "return")


def advance(ctx):
    NJ = z3.Function("next_call_time_of_queue", z3.IntSort(), z3.IntSort())
    ex = mk(ctx)
    st = State(); X = Executive(ex, st)
    aj = ex.fresh("ptr", "advance_job", st); aja = zint(ex.addr(aj)); st.add(aja > 0)
    ex.setf(st, X.o, "advance_sim_time_job", aj, "ptr")
    T = X.T; i, j = z3.Ints("_qi _qj")
    qk = ("F", "class." + CQ, ex.foff(CQ, "next_job_time"))
    s0 = st.fork()
    for f in X.TK: X.tharr(s0, f)
    J = Jobs(ex)
    for f in J.KIND: J.arr(s0, f)

    def njct(ex, s, a, x):
        ex.prove(s, s.ghost["synced"].v == 1, "a child's queue is looked at only after it has finished", assume=False)
        v = NJ(zint(ex.addr(a[0]))); s.add(And(v >= -2 ** 63, v < 2 ** 63)); return v
    done = ("F", "class." + TH, ex.foff(TH, "child_complete"))

    def synced(ex, s, a, x):
        """contract of scheduled_thread_sync"""
        n = ex.new_arr("child_complete", "i8"); c0 = X.tharr(s0, "child_complete")
        s.heap[done] = n
        s.addq(FA([j], And(z3.Implies(c0.get(j) == 1, n.get(j) == 1)), patterns=[n.get(j)]))
        s.addq(FA([j], z3.Implies(And(1 <= j, j < X.m, X.th(s0, "enabled", T.get(j)) != 0, X.th(s0, "process_type", T.get(j)) == SCHED), n.get(T.get(j)) == 1), patterns=[T.get(j)]))
        s.ghost["synced"] = G(z3.IntVal(1))
        return 0
    st.ghost["synced"] = G(z3.IntVal(0))
    ex.patterns.append((re.compile(r"^Trick::Executive::scheduled_thread_sync\("), synced))
    ex.patterns.append((re.compile(r"^Trick::ScheduledJobQueue::get_next_job_call_time\("), njct))
    last = X.v0["time_tics"]
    njm = NJ(zint(X.queue(T.get(z3.IntVal(0))))); nji = NJ(zint(X.embedded("input_processor_run_queue")))
    nfc, term, sf = X.v0["next_frame_check_tics"], X.v0["terminate_time"], X.v0["software_frame_tics"]
    act = lambda j: Or(And(X.th(s0, "enabled", T.get(j)) != 0, X.th(s0, "process_type", T.get(j)) == SCHED),
                       And(X.th(s0, "enabled", T.get(j)) != 0, X.th(s0, "process_type", T.get(j)) == AMF, X.th(s0, "amf_cycle_tics", T.get(j)) > 0))
    due = lambda j: z3.If(X.th(s0, "process_type", T.get(j)) == SCHED, NJ(X.queue(T.get(j))), X.th(s0, "amf_next_tics", T.get(j)))

    def base(v):
        """smallest of the main thread's candidates that lie in the future"""
        return Or(v == nfc, And(v == njm, njm > last), And(v == nji, nji > last))
    low = lambda v: And(v <= nfc, Or(njm <= last, v <= njm), Or(nji <= last, v <= nji))

    def cands(V):
        c = bounds(X, V)
        ints = [(n, zint(v)) for n, v in V.all_pos()]
        vals = ints + [("time_tics", X.get(V.st, "time_tics"))]
        for mn, mv in vals:
            c.append(("%s lower bound of main" % (mn,), low(mv)))
            c.append(("%s upper" % (mn,), mv <= nfc))
            for nm, v in ints:
                if nm == mn: continue
                c.append(("%s lower bound before %s" % (mn, nm), FA([j], z3.Implies(And(1 <= j, j < v, act(j)), mv <= due(j)), patterns=[T.get(j)])))
                c.append(("%s attained before %s" % (mn, nm), Or(base(mv), z3.Exists([j], And(1 <= j, j < v, act(j), mv == due(j))))))
        return c
    ex.cands_fn = cands; ex.loop_policy = "inv"
    for o in ex.call(st, meth(ex, "Trick::Executive::advance_sim_time("), [X.this()]):
        s = o.st; q = z3.Int("q"); t = X.get(s, "time_tics")
        ex.prove(s, Eq(o.val, 0), "success is returned", assume=False)
        ex.prove(s, X.get(s, "time_last_pass_tics") == last, "the time of this pass is remembered", assume=False)
        ex.prove(s, t <= nfc, "not past the end of the frame", assume=False)
        ex.prove(s, Or(njm <= last, t <= njm), "not past the main thread's next job", assume=False)
        ex.prove(s, Or(nji <= last, t <= nji), "not past the next top-level job", assume=False)
        ex.prove(s, z3.Implies(And(1 <= q, q < X.m, act(q)), t <= due(q)), "not past the next call of any enabled child thread the main thread waits for", assume=False)
        ex.prove(s, t <= term, "not past the termination time", assume=False)
        ex.prove(s, Or(base(t), t == term, z3.Exists([j], And(1 <= j, j < X.m, act(j), t == due(j)))), "to one of those times", assume=False)
        ex.prove(s, z3.Implies(And(nfc > last, term > last, FA([j], z3.Implies(And(1 <= j, j < X.m, act(j)), due(j) > last), patterns=[T.get(j)])), t > last), "forward, when the end of frame, the termination time and the child threads lie in the future", assume=False)
        ex.prove(s, z3.Implies(And(q >= 1, q < X.m, X.th(s0, "enabled", T.get(q)) != 0, X.th(s0, "process_type", T.get(q)) == SCHED), X.th(s, "child_complete", T.get(q)) == 1), "only after every enabled synchronous thread has finished", assume=False)
        qa = ex.heap_arr(s, qk, "i64")
        ex.prove(s, Eq(qa.get(X.queue(T.get(z3.IntVal(0)))), t + sf), "the main queue's next event is at most a frame away", assume=False)
        ex.prove(s, Eq(ex.load_cell(s, X.o, ex.foff(EX, "input_processor_run_queue") + ex.foff(CQ, "next_job_time"), "i64", 8, "spec"), t + sf), "the top-level queue's next event is at most a frame away", assume=False)
        a = z3.Int("_a"); q0 = ex._heapbase.get(qk)
        ex.prove(s, z3.Implies(a != X.queue(T.get(z3.IntVal(0))), qa.get(a) == q0.get(a)), "no other queue's next event changes", "frame", assume=False)
        ex.prove(s, Eq(J.get(s, "next_tics", aja), t), "the job that advances time is due at the new time", assume=False)
        for f in J.KIND: ex.prove(s, z3.Implies(a != aja, J.get(s, f, a) == J.get(s0, f, a)) if f == "next_tics" else J.get(s, f, a) == J.get(s0, f, a), "no other job data changes (%s)" % f, "frame", assume=False)
        ex.prove(s, X.th(s, "curr_time_tics", T.get(z3.IntVal(0))) == t, "the main thread's time is the simulation time", assume=False)
        ex.prove(s, z3.Implies(a != T.get(z3.IntVal(0)), X.th(s, "curr_time_tics", a) == X.th(s0, "curr_time_tics", a)), "no other thread's time changes", "frame", assume=False)
        X.frame(s, s0, ("time_tics", "time_last_pass_tics"), ("curr_time_tics", "child_complete"))
        ctx.cover(ex, s, "return")


def ready(X, s, a, t):
    pt = X.th(s, "process_type", a); nx = X.th(s, "amf_next_tics", a)
    return And(X.th(s, "enabled", a) != 0, Or(pt == SCHED, And(pt == AMF, nx == t), And(pt == ASYNC, X.th(s, "child_complete", a) != 0, Or(X.th(s, "amf_cycle_tics", a) == 0, nx == t))))


def is_ready(ctx):
    ex = mk(ctx); st = State(); X = Executive(ex, st)
    i = z3.Int("i"); st.add(And(i >= 0, i < X.m)); a = X.T.get(i)
    t = z3.Int("t"); st.add(And(t >= -2 ** 63, t < 2 ** 63))
    s0 = st.fork()
    for f in X.TK: X.tharr(s0, f)
    for f, k in X.TK.items():
        v = X.th(st, f, a)
        if k == "i8": st.add(And(v >= 0, v <= 1))
        if f == "process_type": st.add(And(v >= 0, v <= 2))
    for o in ex.call(st, meth(ex, "Trick::Executive::isThreadReadyToRun("), [X.this(), ex.dec(a), t]):
        v = o.val if z3.is_bool(zb(o.val)) else zint(o.val) != 0
        ex.prove(o.st, zb(v) == ready(X, s0, a, t), "ready exactly when enabled and synchronous, due now, or free-running and finished", assume=False)
        X.frame(o.st, s0); ctx.cover(ex, o.st, "return")


def sync(ctx):
    """thread_sync: waits for what must be finished now, lets overdue asynchronous threads catch up, re-opens the jobs that run now"""
    ex = mk(ctx)
    ex.volatile = rely
    st = State(); X = Executive(ex, st)
    T = X.T; j = z3.Int("_qj"); t = X.v0["time_tics"]
    s0 = st.fork()
    for f in X.TK: X.tharr(s0, f)
    J = Jobs(ex)
    cyc, nx0, pt = (lambda a, f=f: X.th(s0, f, a) for f in ("amf_cycle_tics", "amf_next_tics", "process_type"))
    st.addq(FA([j], And(cyc(T.get(j)) >= 0, cyc(T.get(j)) <= BIG, nx0(T.get(j)) >= -BIG, nx0(T.get(j)) <= BIG), patterns=[T.get(j)]))
    st.ghost["q"] = G(z3.IntVal(0)); st.ghost["job"] = G(z3.IntVal(0)); st.ghost["walked"] = GA(Arr("walked0", z3.IntSort(), z3.IntSort()))
    w0 = st.ghost["walked"]

    def settled(s):
        jb = s.ghost["job"].v
        return Or(jb == 0, J.get(s, "complete", jb) == 0)

    def reset(ex, s, a, x):
        ex.prove(s, And(s.ghost["q"].v == 0, settled(s)), "a queue is walked to its end before the next", assume=False)
        q = zint(ex.addr(a[0])); s.ghost["q"] = G(q); s.ghost["job"] = G(z3.IntVal(0)); return None

    def find(ex, s, a, x):
        ex.prove(s, s.ghost["q"].v == zint(ex.addr(a[0])), "a queue is walked from its first job", assume=False)
        ex.prove(s, settled(s), "every job found is marked as not complete", assume=False)
        ex.prove(s, Eq(a[1], t), "the jobs of the current time", assume=False)
        q = zint(ex.addr(a[0]))
        s2 = s.fork()
        s2.ghost["q"] = G(z3.IntVal(0)); s2.ghost["job"] = G(z3.IntVal(0)); s2.ghost["walked"] = s2.ghost["walked"].set(q, z3.IntVal(1))
        v = ex.fresh("ptr", "job", s); va = zint(ex.addr(v)); s.add(va > 0); s.ghost["job"] = G(va)
        return [Outcome("ret", s, v), Outcome("ret", s2, NULL)]
    P = lambda n: re.compile(r"^Trick::ScheduledJobQueue::%s\(" % n)
    ex.patterns += [(P("reset_curr_index"), reset), (P("find_job"), find)]
    caught = lambda s, a: And(pt(a) == ASYNC, cyc(a) != 0, nx0(a) < t)
    # first element of nx0, nx0 + cycle, ... that is not before t
    lap = lambda a, v: And(v >= t, v < t + cyc(a), (v - nx0(a)) % cyc(a) == 0)

    def cands(V):
        s = V.st
        c = bounds(X, V)
        cc, na, w = X.tharr(s, "child_complete"), X.tharr(s, "amf_next_tics"), s.ghost["walked"]
        c += flags(X, V, s0)
        c.append(("not walking", And(s.ghost["q"].v == 0, s.ghost["job"].v == 0)))
        c.append(("job settled", settled(s)))
        a = z3.Int("_qa")
        c.append(("only threads that ran free catch up", FA([a], z3.Implies(Not(caught(s, a)), na.get(a) == nx0(a)), patterns=[na.get(a)])))
        c.append(("the others keep their call time", FA([a], z3.Implies(caught(s, a), Or(na.get(a) == nx0(a), And(cc.get(a) == 1, lap(a, na.get(a))))), patterns=[na.get(a)])))
        c.append(("nothing walked", FA([a], w.get(a) == w0.get(a), patterns=[w.get(a)])))
        ne = X.tharr(V.entry, "amf_next_tics")
        for nm, p in V.outer_ptrs():
            c.append(("%s is catching up" % (nm,), And(cc.get(p) == 1, pt(p) == ASYNC, cyc(p) != 0, na.get(p) >= ne.get(p), (na.get(p) - ne.get(p)) % cyc(p) == 0, Or(na.get(p) == ne.get(p), na.get(p) < t + cyc(p)))))
            c.append(("only %s" % (nm,), FA([a], z3.Implies(a != p, na.get(a) == ne.get(a)), patterns=[na.get(a)])))
        for nm, v in [(n, zint(v)) for n, v in V.all_pos()]:
            tv = T.get(v)
            c.append(("walking queue of %s" % (nm,), s.ghost["q"].v == X.queue(tv)))
            c.append(("thread %s is ready" % (nm,), ready(X, s, tv, t)))
            c.append(("threads from %s on keep their call time" % (nm,), FA([j], z3.Implies(And(v <= j, j < X.m), na.get(T.get(j)) == nx0(T.get(j))), patterns=[T.get(j)])))
            c.append(("threads behind %s keep their call time" % (nm,), FA([j], z3.Implies(And(v < j, j < X.m), na.get(T.get(j)) == nx0(T.get(j))), patterns=[T.get(j)])))
            c.append(("mustfinish threads before %s have finished" % (nm,), FA([j], z3.Implies(And(1 <= j, j < v, pt(T.get(j)) == AMF, nx0(T.get(j)) == t), cc.get(T.get(j)) == 1), patterns=[T.get(j)])))
            c.append(("free-running threads before %s that had finished caught up" % (nm,), FA([j], z3.Implies(And(1 <= j, j < v, caught(s, T.get(j)), X.th(s0, "child_complete", T.get(j)) == 1), lap(T.get(j), na.get(T.get(j)))), patterns=[T.get(j)])))
            c.append(("queues walked up to %s" % (nm,), FA([j], z3.Implies(And(0 <= j, j < v, ready_then(s, T.get(j))), w.get(X.queue(T.get(j))) == 1), patterns=[T.get(j)])))
            c.append(("only those before %s" % (nm,), FA([a], z3.Implies(w.get(a) != w0.get(a), And(0 <= X.pos(a - X.jq), X.pos(a - X.jq) < v, T.get(X.pos(a - X.jq)) == a - X.jq, ready(X, s, a - X.jq, t))), patterns=[w.get(a)])))
        return c
    # ready at the start of the function (flags only go up meanwhile)
    def ready_then(s, a):
        na = X.th(s, "amf_next_tics", a)
        return And(X.th(s0, "enabled", a) != 0, Or(pt(a) == SCHED, And(pt(a) == AMF, na == t), And(pt(a) == ASYNC, X.th(s0, "child_complete", a) != 0, Or(cyc(a) == 0, na == t))))
    ex.cands_fn = cands; ex.loop_policy = "inv"
    for o in ex.call(st, meth(ex, "Trick::Executive::thread_sync("), [X.this()]):
        s = o.st; q = z3.Int("q"); a = T.get(q)
        inr = And(1 <= q, q < X.m)
        ex.prove(s, z3.Implies(And(inr, pt(a) == AMF, nx0(a) == t), X.th(s, "child_complete", a) == 1), "threads that must finish now have finished", assume=False)
        ex.prove(s, z3.Implies(And(inr, caught(s, a), X.th(s0, "child_complete", a) == 1), lap(a, X.th(s, "amf_next_tics", a))), "a finished free-running thread is next called at the first multiple of its cycle that is not past", assume=False)
        ex.prove(s, z3.Implies(And(inr, Or(Not(caught(s, a)), X.th(s, "child_complete", a) == 0)), X.th(s, "amf_next_tics", a) == nx0(a)), "every other thread's next call stays", assume=False)
        w = s.ghost["walked"]; b = z3.Int("b")
        ex.prove(s, z3.Implies(And(0 <= q, q < X.m, ready_then(s, a)), w.get(X.queue(a)) == 1), "the jobs due now of every thread that is ready are marked as not complete", assume=False)
        ex.prove(s, z3.Implies(w.get(b) != w0.get(b), And(0 <= X.pos(b - X.jq), X.pos(b - X.jq) < X.m, ready(X, s, b - X.jq, t))), "no other thread's jobs are", assume=False)
        X.frame(s, s0, (), ("amf_next_tics", "child_complete"))
        ctx.cover(ex, s, "return")


CS = [Contract("advance_sim_time", advance, SRC, ["Trick::Executive::advance_sim_time"]),
      Contract("scheduled_thread_sync", wait, SRC, ["Trick::Executive::scheduled_thread_sync"]),
      Contract("isThreadReadyToRun", is_ready, SRC, ["Trick::Executive::isThreadReadyToRun"]),
      Contract("thread_sync", sync, SRC, ["Trick::Executive::thread_sync"])]
import execloop
CS += execloop.CS
NAT = SRC + [ED + "Executive_loop_single_thread.cpp", ED + "Executive_loop_multi_thread.cpp", ED + "Executive_terminate.cpp", ED + "ExecutiveException.cpp", ED + "ThreadTrigger.cpp", "trick_source/sim_services/ThreadBase/ThreadBase.cpp", "trick_source/sim_services/SimObject/SimObject.cpp"]
CHECK = Check("C03", CS, Native("native/c03.cpp", NAT))
