"""The executive's main loop as an automaton: which jobs are called, in which order, under which conditions (C03)."""
from execu import *
from c01 import G, mk
from ir import I
LSRC = [ED + "Executive_loop_single_thread.cpp", ED + "Executive_loop_multi_thread.cpp", ED + "Executive.cpp", SQ, JD]
VEC = "struct.std::_Vector_base<Trick::JobData *, std::allocator<Trick::JobData *>>::_Vector_impl_data"
NOCMD, FREEZE, RUN, EXITC = 0, 2, 3, 10
# phases of a pass through the loop
FRESH, TOP, SYNC, INPUT, SCHEDD, EOF = range(6)


def ready(X, s, a, t):
    pt = X.th(s, "process_type", a); nx = X.th(s, "amf_next_tics", a)
    return And(X.th(s, "enabled", a) != 0, Or(pt == SCHED, And(pt == AMF, nx == t), And(pt == ASYNC, X.th(s, "child_complete", a) != 0, Or(X.th(s, "amf_cycle_tics", a) == 0, nx == t))))


def loop(ctx, multi):
    ex = mk(ctx); ex.volatile = rely
    ex.path_limit = 60000
    st = State(); X = Executive(ex, st, big=2 ** 60)
    T = X.T; j, a_ = z3.Ints("_qj _qa")
    J = Jobs(ex)
    s0 = st.fork()
    for f in X.TK: X.tharr(s0, f)
    for f in J.KIND: J.arr(s0, f)
    pt = lambda a: X.th(s0, "process_type", a)
    Z = lambda x: z3.IntVal(x)
    qa = {n: zint(X.embedded(n)) for n in ("top_of_frame_queue", "input_processor_run_queue", "end_of_frame_queue", "thread_sync_queue")}
    mainq = X.queue(T.get(Z(0)))
    TQ, EQ = ex.foff(TH, "top_of_frame_queue"), ex.foff(TH, "end_of_frame_queue")
    TRIG = ex.foff(TH, "trigger_container")
    dep = ex.foff(CJ, "depends")
    KEEP = ("frame_count", "rt_nap")
    DJ = z3.Function("job_depended_on", z3.IntSort(), z3.IntSort(), z3.IntSort())
    init = dict(ph=FRESH, q=0, job=0, last=0, rc=0, tested=1, frozen=0, frame=None, nfc=X.v0["next_frame_check_tics"], time=X.v0["time_tics"], cmd=X.v0["exec_command"], passno=1, due=0, edue=0)
    init["frame"] = X.v0["frame_count"]
    for k, v in init.items(): st.ghost[k] = G(v if isz(v) else Z(v))
    st.ghost["wtop"] = GA(Arr("wtop0", z3.IntSort(), z3.IntSort())); st.ghost["weof"] = GA(Arr("weof0", z3.IntSort(), z3.IntSort())); st.ghost["fired"] = GA(Arr("fired0", z3.IntSort(), z3.IntSort()))
    for n in ("wtop", "weof", "fired"): st.addq(FA([j], st.ghost[n].get(j) <= 0, patterns=[st.ghost[n].get(j)]))
    g = lambda s, k: s.ghost[k].v

    def sg(s, **kw):
        for k, v in kw.items(): s.ghost[k] = G(v if isz(v) else Z(v))
    F = lambda s, f: X.get(s, f)
    last_ok = lambda s: Or(g(s, "last") == 0, g(s, "tested") == 1, And(g(s, "q") == mainq, J.get(s, "system_job_class", g(s, "last")) == 0))
    done_ok = lambda s: Or(g(s, "last") == 0, g(s, "ph") != INPUT, J.get(s, "complete", g(s, "last")) == 1) if multi else True
    quiet = lambda s: And(g(s, "q") == 0, g(s, "job") == 0, g(s, "rc") == 0, g(s, "last") == 0)
    steady = lambda s: And(F(s, "time_tics") == g(s, "time"), F(s, "next_frame_check_tics") == g(s, "nfc"))
    alltop = lambda s: FA([j], z3.Implies(And(1 <= j, j < X.m, pt(T.get(j)) == SCHED), s.ghost["wtop"].get(T.get(j) + TQ) == g(s, "passno")), patterns=[T.get(j)]) if multi else True
    alleof = lambda s: FA([j], z3.Implies(And(1 <= j, j < X.m, pt(T.get(j)) == SCHED), s.ghost["weof"].get(T.get(j) + EQ) == g(s, "passno")), patterns=[T.get(j)]) if multi else True

    def fin(s):
        """nothing that belongs to the pass is left to do (checked piece by piece)"""
        return [("the main loop does not change time", Or(F(s, "time_tics") == g(s, "time"))),
                ("a pass ends only when all its jobs were called", And(quiet(s), Or(g(s, "ph") == FRESH, g(s, "ph") == SCHEDD, g(s, "ph") == EOF))),
                ("the end-of-frame jobs are called when time reaches the end of the frame", Or(g(s, "ph") != SCHEDD, g(s, "time") != g(s, "nfc"))),
                ("the run ends when commanded", Or(g(s, "ph") == FRESH, g(s, "edue") == 1)),
                ("the next frame ends one frame later, and only then", z3.If(g(s, "ph") == EOF, F(s, "next_frame_check_tics") == g(s, "nfc") + F(s, "software_frame_tics"), F(s, "next_frame_check_tics") == g(s, "nfc"))),
                ("every child's end-of-frame jobs are called", Or(g(s, "ph") != EOF, zb(alleof(s))))]

    def prove(s, x, nm): ex.prove(s, x, nm, assume=True)

    def endpass(s, guard=True):
        for nm, f in fin(s): ex.prove(s, Or(Not(guard), zb(f)) if guard is not True else f, nm)

    def havoc(s):
        """what a called job may do to the executive"""
        for f, k in X.EK.items():
            if f in KEEP or k[0] != "i": continue
            v = z3.Int(ex.fresh_name(f)); n = int(k[1:])
            s.add(And(v >= -2 ** (n - 1), v < 2 ** (n - 1)) if k != "i8" else And(v >= 0, v <= 1))
            if f.endswith("_tics"): s.add(And(v >= -2 ** 60, v <= 2 ** 60))
            if f in X.ENUM: s.add(Or(*[v == y for y in X.ENUM[f]]))
            ex.setf(s, X.o, f, v, k)
        sg(s, nfc=F(s, "next_frame_check_tics"), time=F(s, "time_tics"), cmd=F(s, "exec_command"))

    def freeze_loop(ex, s, a, x):
        endpass(s)
        prove(s, And(g(s, "cmd") == FREEZE, g(s, "frozen") == 0), "freezes only when commanded")
        prove(s, F(s, "exec_command") == NOCMD, "the freeze command is taken")
        sg(s, ph=FRESH, frozen=1, edue=0, passno=g(s, "passno") + 1); havoc(s)
        return 0

    def begin(s):
        """first walk of a pass"""
        prove(s, Or(g(s, "frozen") == 1, g(s, "cmd") != FREEZE), "a freeze command is honoured before the next pass")

    def leave_walk(s):
        prove(s, And(g(s, "job") == 0, g(s, "rc") == 0), "every job found is called, and one that fails ends the run")

    def gate(s):
        """conditions under which the jobs behind the top of frame may be called: fresh pass without a top of frame, or top of frame done"""
        f = F(s, "next_frame_check_tics") - F(s, "software_frame_tics")
        endpass(s, g(s, "ph") != TOP)
        prove(s, Or(g(s, "ph") == TOP, g(s, "frozen") == 1, g(s, "cmd") != FREEZE), "a freeze command is honoured before the next pass")
        prove(s, Or(g(s, "ph") == TOP, g(s, "time") != f), "the top-of-frame jobs are called when time is at the start of a frame")
        prove(s, Or(g(s, "ph") != TOP, F(s, "frame_count") == g(s, "frame") + 1), "a frame is counted once")
        if multi: prove(s, Or(g(s, "ph") != TOP, alltop(s)), "every child's top-of-frame jobs are called")
        s.ghost["passno"] = G(z3.If(g(s, "ph") == TOP, g(s, "passno"), g(s, "passno") + 1))

    def reset(ex, s, a, x):
        q = z3.simplify(zint(ex.addr(a[0])))
        prove(s, quiet(s), "a queue is walked to its end before the next")
        c = lambda n: q.eq(z3.simplify(zint(n)))
        if c(qa["top_of_frame_queue"]):
            endpass(s); begin(s)
            prove(s, And(g(s, "time") == F(s, "next_frame_check_tics") - F(s, "software_frame_tics")), "top-of-frame jobs are called only at the start of a frame")
            sg(s, ph=FRESH, frame=F(s, "frame_count"), nfc=F(s, "next_frame_check_tics"), passno=g(s, "passno") + 1)
        elif c(qa["thread_sync_queue"]) and multi:
            gate(s); sg(s, ph=TOP, nfc=F(s, "next_frame_check_tics"))
        elif c(qa["input_processor_run_queue"]):
            if multi: prove(s, g(s, "ph") == SYNC, "threads are synchronised before the top-level jobs run")
            else: gate(s)
            sg(s, ph=SYNC, nfc=F(s, "next_frame_check_tics"))
        elif c(mainq):
            prove(s, g(s, "ph") == INPUT, "the top-level jobs are called before the scheduled jobs")
            if multi:
                fr = s.ghost["fired"]
                ex.prove(s, FA([j], z3.Implies(And(1 <= j, j < X.m, ready(X, s, T.get(j), F(s, "time_tics"))), Or(fr.get(T.get(j)) == g(s, "passno"), pt(T.get(j)) == ASYNC)), patterns=[T.get(j)]), "every synchronous child thread that is ready is started", assume=False)
        elif c(qa["end_of_frame_queue"]):
            prove(s, And(g(s, "ph") == SCHEDD, g(s, "time") == F(s, "next_frame_check_tics")), "end-of-frame jobs are called only at the end of a frame, behind the scheduled jobs")
            prove(s, g(s, "edue") == 1, "the run ends when commanded")
        elif multi:
            i = X.pos(q - TQ); i2 = X.pos(q - EQ)
            ok1 = And(1 <= i, i < X.m, T.get(i) == q - TQ, pt(q - TQ) == SCHED, g(s, "ph") == TOP, F(s, "frame_count") == g(s, "frame"), s.ghost["wtop"].get(q) != g(s, "passno"))
            ok2 = And(1 <= i2, i2 < X.m, T.get(i2) == q - EQ, pt(q - EQ) == SCHED, g(s, "ph") == EOF, s.ghost["weof"].get(q) != g(s, "passno"))
            prove(s, Or(ok1, ok2), "a child's frame jobs are called once, with the main thread's")
        else: raise Unsupported("walk over an unexpected queue")
        sg(s, q=q, last=0, tested=1)
        if c(qa["top_of_frame_queue"]): return cut(s, "frame", FRESH, q)
        if c(qa["end_of_frame_queue"]): return cut(s, "end", SCHEDD, q)
        if c(qa["thread_sync_queue"]): return cut(s, "top", TOP, q)
        if c(qa["input_processor_run_queue"]): return cut(s, "sync", SYNC, q)
        if c(mainq): return cut(s, "sched", INPUT, q)
        return None

    def cut(s, key, ph, q):
        def facts(s):
            pn = g(s, "passno")
            r = [("a walk begins", And(g(s, "ph") == ph, g(s, "q") == q, g(s, "job") == 0, g(s, "rc") == 0, g(s, "last") == 0, pn >= 1)), ("times", steady(s)), ("flags", And(g(s, "frozen") >= 0, g(s, "frozen") <= 1)),
                 ("command", Or(F(s, "exec_command") == g(s, "cmd"), And(g(s, "cmd") == RUN, F(s, "exec_command") == NOCMD))), ("run flag", And(F(s, "rt_nap") >= 0, F(s, "rt_nap") <= 1))]
            if key == "frame": r.append(("frame count", And(F(s, "frame_count") == g(s, "frame"))))
            if key == "end": r.append(("end of frame", And(g(s, "edue") == 1, g(s, "frozen") == 0, F(s, "time_tics") == g(s, "nfc"))))
            for w in ("wtop", "weof", "fired") if multi else ():
                W = s.ghost[w]
                r.append(("%s not ahead" % w, FA([a_], W.get(a_) < pn if w == "weof" or w == "fired" and ph in (FRESH, TOP, SYNC) or w == "wtop" and ph == FRESH else W.get(a_) <= pn, patterns=[W.get(a_)])))
            return r
        return Outcome("cut", s, (key, facts))

    def found(ex, s, a, timed):
        q = zint(ex.addr(a[0]))
        prove(s, g(s, "q") == q, "a queue is walked from its first job")
        leave_walk(s)
        qs = z3.simplify(q); c = lambda n: qs.eq(z3.simplify(zint(n)))
        istimed = c(qa["input_processor_run_queue"]) or c(mainq)
        prove(s, istimed == timed, "periodic jobs are called when due, frame jobs every frame")
        if timed:
            prove(s, Eq(a[1], F(s, "time_tics")), "the jobs called are those of the current time")
            prove(s, last_ok(s), "the next call time of a job that sets it itself is looked at after the call")
            prove(s, zb(done_ok(s)), "a job that was called is complete")
        prove(s, steady(s), "the main loop does not change time between jobs")
        s2 = s.fork()
        nxt = TOP if c(qa["top_of_frame_queue"]) else SYNC if c(qa["thread_sync_queue"]) else INPUT if c(qa["input_processor_run_queue"]) else SCHEDD if c(mainq) else EOF if c(qa["end_of_frame_queue"]) else None
        if nxt is not None: sg(s2, ph=nxt)
        else:
            s2.ghost["wtop"] = GA(ArrFn(lambda k, w=s2.ghost["wtop"], e=g(s2, "ph"), pn=g(s2, "passno"): z3.If(And(e == TOP, k == q), pn, w.get(k))))
            s2.ghost["weof"] = GA(ArrFn(lambda k, w=s2.ghost["weof"], e=g(s2, "ph"), pn=g(s2, "passno"): z3.If(And(e == EOF, k == q), pn, w.get(k))))
        sg(s2, q=0, last=0, tested=1)
        if nxt == SCHEDD: s2.ghost["edue"] = G(z3.If(And(F(s2, "exec_command") != EXITC, F(s2, "terminate_time") > F(s2, "time_last_pass_tics")), Z(1), Z(0)))
        if nxt == SCHEDD: sg(s2, frozen=0)
        v = ex.fresh("ptr", "job", s); va = zint(ex.addr(v)); s.add(va > 0); s.add(J.ranges(s, va))
        if multi:
            b, e = (zint(ex.heap_arr(s, ("F", VEC, o), "ptr").get(va + dep)) for o in (0, 8))
            nd = z3.Int(ex.fresh_name("ndeps")); s.add(And(nd >= 0, nd < 2 ** 31, b > 0, e == b + 8 * nd))
            s.ghost["dep"] = G(va); s.ghost["ndep"] = G(nd)
            k = z3.Int("_k"); p = ex.heap_arr(s, ("P", "ptr"), "ptr")
            s.addq(FA([k], p.get(b + 8 * k) == DJ(va, k), patterns=[DJ(va, k)]))
        sg(s, job=va, last=0, tested=0)
        return [Outcome("ret", s, v), Outcome("ret", s2, NULL)]

    def jcall(ex, s, a, x):
        jb = zint(ex.addr(a[0]))
        prove(s, And(g(s, "job") == jb, jb != 0, g(s, "rc") == 0), "each job found is called, once")
        prove(s, steady(s), "the main loop does not change time between jobs")
        if multi:
            k = z3.Int("k")
            ex.prove(s, z3.Implies(And(g(s, "ph") == INPUT, 0 <= k, k < s.ghost["ndep"].v), J.get(s, "complete", DJ(s.ghost["dep"].v, k)) != 0), "a scheduled job is called only when the jobs it depends on are complete", assume=False)
        havoc(s)
        rc = z3.Int(ex.fresh_name("rc")); s.add(And(rc >= -2 ** 31, rc < 2 ** 31))
        sg(s, job=0, rc=rc, last=jb, tested=0)
        return rc

    def test(ex, s, a, x):
        q = zint(ex.addr(a[0]))
        hit = And(g(s, "q") == q, g(s, "last") == zint(ex.addr(a[1])), F(s, "time_tics") == zint(a[2]))
        s.ghost["tested"] = G(z3.If(hit, Z(1), g(s, "tested")))
        return 0

    def term(ex, s, a, x):
        rc = zint(a[1])
        late = And(g(s, "ph") == SCHEDD, F(s, "terminate_time") <= F(s, "time_last_pass_tics"), F(s, "time_tics") == F(s, "time_last_pass_tics"), quiet(s))
        prove(s, Or(And(g(s, "rc") != 0, rc == g(s, "rc")), And(rc == 0, g(s, "ph") == SCHEDD, g(s, "cmd") == EXITC, quiet(s), steady(s)), And(rc == 0, late)),
              "the run ends with the status of a failed job, or with success when commanded or at the termination time, at the time of the last pass")
        return Outcome("throw", s, NULL)

    def fire(s, a):
        prove(s, And(g(s, "ph") == INPUT, quiet(s)), "child threads are started between the top-level and the scheduled jobs")
        prove(s, And(X.th(s, "child_complete", a) == 0, X.th(s, "curr_time_tics", a) == F(s, "time_tics"), s.ghost["fired"].get(a) != g(s, "passno")), "a child thread is started once, for the current time, and marked as busy")
        s.ghost["fired"] = s.ghost["fired"].set(a, g(s, "passno"))
        return None

    P = lambda n: re.compile(r"^Trick::%s\(" % n)
    ex.patterns += [(P("ScheduledJobQueue::reset_curr_index"), reset), (P("ScheduledJobQueue::find_next_job"), lambda ex, s, a, x: found(ex, s, a, True)), (P("ScheduledJobQueue::get_next_job"), lambda ex, s, a, x: found(ex, s, a, False)),
                    (P("ScheduledJobQueue::test_next_job_call_time"), test), (P("JobData::call"), jcall), (P("Executive::freeze_loop"), freeze_loop), (P("Executive::exec_terminate_with_return"), term)]
    ex.handlers["exec_terminate_with_return"] = lambda ex, s, a, x: term(ex, s, [None] + a, x)
    ex.patterns += [(re.compile(r"std::__cxx11::basic_string<.*::c_str"), lambda ex, s, a, x: ex.fresh("ptr", "str", s))]
    if multi:
        def is_ready(ex, s, a, x):
            p = a[1]; pa = zint(ex.addr(p))
            q = Ptr(p.obj, p.c + ex.foff(TH, "child_complete"), p.terms, ("S", "class." + TH, ex.foff(TH, "child_complete"), ex.struct_obj(None, TH, "_t").typ))
            rely(ex, s, q, I(8), X.th(s, "child_complete", pa))
            prove(s, s.ghost["fired"].get(pa) != g(s, "passno"), "a thread is considered once")
            return ready(X, s, pa, zint(a[2]))
        TR = z3.Function("trigger_of", z3.IntSort(), z3.IntSort())

        def trigger(ex, s, a, x):
            v = TR(zint(ex.addr(a[0])) - TRIG); s.add(v > 0); return ex.dec(v)
        ex.patterns += [(P("Executive::isThreadReadyToRun"), is_ready), (P("ThreadTriggerContainer::getThreadTrigger"), trigger)]
        prev = ex.virt["resolve"]

        def res(ex, s, cal, args, x):
            p = args[0]
            if isinstance(p, Ptr) and isinstance(p.obj, SymObj) and z3.is_app(p.obj.e) and p.obj.e.decl().name() == "trigger_of":
                sl = cal.slot[1] if isinstance(cal.slot, tuple) else cal.slot
                if sl != 3: raise Unsupported("unexpected virtual call on a thread trigger")
                return Outcome("ret", s, fire(s, p.obj.e.arg(0)))
            return prev(ex, s, cal, args, x)
        ex.virt["resolve"] = res

        def nap(ex, s, a, x):
            # meanwhile other threads may complete jobs
            key = ("F", "class." + CJ, ex.foff(CJ, "complete")); c0 = J.arr(s, "complete"); n = ex.new_arr("complete", "i8"); s.heap[key] = n
            s.addq(FA([j], Or(n.get(j) == c0.get(j), n.get(j) == 1), patterns=[n.get(j)]))
            return 0
        ex.handlers["nanosleep"] = nap

    def cands(V):
        s = V.st; c = []
        for nm, v in V.all_pos():
            v = zint(v); c += [("%s >= 0" % (nm,), v >= 0), ("%s >= 1" % (nm,), v >= 1)]
            if multi: c += [("%s <= threads" % (nm,), v <= X.m), ("%s <= dependencies" % (nm,), v <= s.ghost["ndep"].v) if "ndep" in s.ghost else ("%s <= dependencies" % (nm,), True)]
        for n in ("ph", "q", "job", "rc", "last", "frozen", "edue"):
            vals = {"ph": range(6), "q": list(qa.values()) + [mainq, Z(0)]}.get(n, [Z(0), Z(1)] if n in ("frozen", "edue") else [Z(0)])
            for i, y in enumerate(vals): c.append(("ghost %s = %d" % (n, i), g(s, n) == y))
        c.append(("times", steady(s)))
        c.append(("same pass", And(g(s, "passno") == g(V.entry, "passno"), g(s, "frame") == g(V.entry, "frame"))))
        c.append(("same phase", g(s, "ph") == g(V.entry, "ph"))); c.append(("same walk", g(s, "q") == g(V.entry, "q"))); c.append(("same job", And(g(s, "job") == g(V.entry, "job"))))
        c.append(("same end", g(s, "edue") == g(V.entry, "edue")))
        c.append(("same frame count", F(s, "frame_count") == g(s, "frame")))
        c.append(("command", F(s, "exec_command") == g(s, "cmd"))); c.append(("command or run", Or(F(s, "exec_command") == g(s, "cmd"), And(g(s, "cmd") == RUN, F(s, "exec_command") == NOCMD))))
        c.append(("settled", last_ok(s))); c.append(("completed", zb(done_ok(s))))
        for nm, f in fin(s): c.append((nm, zb(f) if not z3.is_bool(f) else f))
        c.append(("frozen at rest", Or(g(s, "frozen") == 0, g(s, "ph") == FRESH)))
        c.append(("passes are counted", g(s, "passno") >= 1))
        if multi:
            pn = g(s, "passno")
            for w in ("wtop", "weof", "fired"):
                W = s.ghost[w]
                c.append(("%s not ahead" % w, FA([a_], W.get(a_) <= pn, patterns=[W.get(a_)])))
                c.append(("%s none yet" % w, FA([a_], W.get(a_) < pn, patterns=[W.get(a_)])))
                for nm, v in V.all_pos():
                    v = zint(v)
                    o = TQ if w == "wtop" else EQ if w == "weof" else 0
                    c.append(("%s only before %s" % (w, nm), FA([a_], z3.Implies(W.get(a_) == pn, And(X.pos(a_ - o) < v, X.pos(a_ - o) >= 1)), patterns=[W.get(a_)])))
                    if w != "fired": c.append(("%s all before %s" % (w, nm), FA([j], z3.Implies(And(1 <= j, j < v, pt(T.get(j)) == SCHED), W.get(T.get(j) + o) == pn), patterns=[T.get(j)])))
                    else:
                        c.append(("%s all before %s" % (w, nm), FA([j], z3.Implies(And(1 <= j, j < v, ready(X, s, T.get(j), F(s, "time_tics"))), Or(W.get(T.get(j)) == pn, pt(T.get(j)) == ASYNC)), patterns=[T.get(j)])))
                if V.entry is not V.st: c.append(("%s unchanged" % w, FA([a_], W.get(a_) == V.entry.ghost[w].get(a_), patterns=[W.get(a_)])))
                else: c.append(("%s unchanged" % w, True))
            cc = X.tharr(s, "child_complete")
            if "ndep" in s.ghost:
                k = z3.Int("_k")
                for nm, v in V.all_pos():
                    c.append(("dependencies before %s are complete" % (nm,), FA([k], z3.Implies(And(0 <= k, k < zint(v)), J.get(s, "complete", DJ(s.ghost["dep"].v, k)) != 0), patterns=[DJ(s.ghost["dep"].v, k)])))
                ce, cn = J.arr(V.entry, "complete"), J.arr(s, "complete")
                c.append(("complete jobs stay complete", FA([k], z3.Implies(ce.get(k) != 0, cn.get(k) != 0), patterns=[cn.get(k)]) if V.entry is not V.st else True))
        return c
    ex.cands_fn = cands; ex.loop_policy = "inv"
    n = 0
    for o in ex.call(st, meth(ex, "Trick::Executive::loop_%s_thread(" % ("multi" if multi else "single")), [X.this()]):
        if o.kind == "ret": ex.prove(o.st, False, "the loop ends only by terminating", assume=False)
        else: n += 1
        ctx.cover(ex, o.st, "end of run %d" % n)


CS = [Contract("loop_single_thread", lambda ctx: loop(ctx, False), LSRC, ["Trick::Executive::loop_single_thread"]),
      Contract("loop_multi_thread", lambda ctx: loop(ctx, True), LSRC, ["Trick::Executive::loop_multi_thread"], timeout=540)]
