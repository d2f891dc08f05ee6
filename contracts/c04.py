"""C04: changing the number of tics per second keeps every pending time; seconds and tics are converted consistently."""
from execu import *
from c01 import G, mk
from objs import Thing, Rec, note, names, calls, external, rng
from ir import I
EV = "trick_source/sim_services/EventManager/EventManager.cpp"
SRC = [ED + "Executive_set_time_tic_value.cpp", ED + "Executive.cpp", ED + "Executive_get_sim_time.cpp", ED + "Threads_set_amf_cycle_tics.cpp", SQ, JD]
BIG = 2 ** 60
R_, I_ = z3.RealSort(), z3.IntSort()
S = z3.Function("in_new_tics", R_, R_)          # x tics of the old resolution, in tics of the new one: x / old * new
T = z3.Function("seconds_in_new_tics", R_, R_)  # x seconds in tics of the new resolution: x * new
D = z3.Function("in_seconds", R_, R_)           # x tics of the (only) resolution in seconds
lim = 2 ** 61


def factors(e):
    """numerator and denominator atoms of a product"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL:
        n, d = [], []
        for c in e.children():
            a, b = factors(c); n += a; d += b
        return n, d
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DIV:
        a, b = factors(e.arg(0)); c, d = factors(e.arg(1))
        return a + d, b + c
    return [e], []


def units(ex, rules):
    """products and quotients with the numbers of tics per second are named: rules (numerator, denominator, function)"""
    f0 = ex.fbin0

    def fbin(st, op, t, a, b):
        r = f0(st, op, t, a, b)
        if op not in ("fmul", "fdiv") or not isz(r): return r
        n, d = factors(r)
        for nu, de, f in rules:
            n2, d2 = list(n), list(d); ok = True
            for want, have in ((nu, n2), (de, d2)):
                for w in want:
                    k = [i for i, x in enumerate(have) if x.eq(w)]
                    if not k: ok = False; break
                    have.pop(k[0])
            if not ok or d2 or len(n2) != 1: continue
            if any(n2[0].eq(w) for w in nu + de): continue
            return f(n2[0])
        return r
    ex.fbin0 = fbin
    ex.assumed.add("x / old * new, x * tics and x / tics are computed as real numbers; the product and quotient are named, their value is only used through the lemma on them")


def near(v, s):
    """v is the number of tics s stands for: the same when s is a whole number, less than a tic away otherwise"""
    v = z3.ToReal(zint(v)); k = z3.ToReal(z3.ToInt(s))
    return And(v - s < 1, s - v < 1, z3.Implies(k == s, v == k))


def rel(v, x): return z3.If(x >= MAXLL - 1, zint(v) == x, near(v, S(z3.ToReal(x))))


def fits(x): return Or(x >= MAXLL - 1, And(x >= -BIG, x <= BIG, S(z3.ToReal(x)) >= -lim, S(z3.ToReal(x)) <= lim))


class PQ:
    """std::priority_queue<long long, ..., greater> as a sorted sequence (assumed contract of the standard library)"""

    def __init__(self, ex, st, o, off, name):
        self.ex, self.o, self.off = ex, o, off
        self.n0 = z3.Int(name + "_count"); self.a0 = Arr(name, I_, I_)
        st.add(And(self.n0 >= 0, self.n0 <= 2 ** 31))
        i, j = z3.Ints("_pi _pj")
        st.addq(z3.ForAll([i, j], z3.Implies(And(0 <= i, i < j, j < self.n0), self.a0.get(i) <= self.a0.get(j)), patterns=[z3.MultiPattern(self.a0.get(i), self.a0.get(j))]))
        self.key = self.name(Ptr(o, off))
        self.init(st, self.key, GA(self.a0), z3.IntVal(0), self.n0)
        C = r"^std::priority_queue<long long.*>::"
        m = {"priority_queue": self.ctor, "~priority_queue": lambda ex, st, a, x: None, "push": self.push, "emplace": self.push, "pop": self.pop, "top": self.top, "empty": self.empty, "size": self.size, "operator=": self.copy, "swap": self.swap}
        for n, f in m.items(): ex.patterns.append((re.compile(C + re.escape(n) + r"(<.*>)?\("), f))
        ex.assumed.add("std::priority_queue<long long, vector, greater> keeps its elements and yields them in ascending order")

    def name(self, p): return "pq.%d.%s" % (p.obj.id, p.c)

    def init(self, st, k, a, lo, n):
        st.ghost[k + ".a"] = a; st.ghost[k + ".lo"] = G(lo); st.ghost[k + ".n"] = G(n)

    def get(self, st, k): return st.ghost[k + ".a"], st.ghost[k + ".lo"].v, st.ghost[k + ".n"].v

    def keys(self, st): return sorted(k[:-2] for k in st.ghost if k.startswith("pq.") and k.endswith(".a"))

    def ctor(self, ex, st, a, x):
        if len(a) > 1 and isinstance(a[1], Ptr) and self.name(a[1]) + ".a" in st.ghost: return self.copy(ex, st, a, x)
        self.init(st, self.name(a[0]), GA(Arr(ex.fresh_name("empty"), I_, I_)), z3.IntVal(0), z3.IntVal(0))

    def copy(self, ex, st, a, x):
        self.init(st, self.name(a[0]), *self.get(st, self.name(a[1])))
        return a[0]

    def swap(self, ex, st, a, x):
        p, q = self.get(st, self.name(a[0])), self.get(st, self.name(a[1]))
        self.init(st, self.name(a[0]), *q); self.init(st, self.name(a[1]), *p)

    def empty(self, ex, st, a, x):
        A, lo, n = self.get(st, self.name(a[0])); return lo >= n

    def size(self, ex, st, a, x):
        A, lo, n = self.get(st, self.name(a[0])); return n - lo

    def top(self, ex, st, a, x):
        A, lo, n = self.get(st, self.name(a[0]))
        ex.prove(st, lo < n, "the first element of a queue that is not empty", "precondition")
        o = ex.new_obj(ex.fresh_name("top"), 8, None, "heap"); ex.store(st, Ptr(o), I(64), A.get(lo), "top")
        return Ptr(o)

    def pop(self, ex, st, a, x):
        k = self.name(a[0]); A, lo, n = self.get(st, k)
        ex.prove(st, lo < n, "an element is removed from a queue that is not empty", "precondition")
        st.ghost[k + ".lo"] = G(lo + 1)

    def push(self, ex, st, a, x):
        k = self.name(a[0]); A, lo, n = self.get(st, k)
        v = zint(ex.load(st, a[1], I(64), "push"))
        p = z3.Int(ex.fresh_name("place")); j = z3.Int("_pj")
        st.add(And(lo <= p, p <= n)); st.add(z3.Implies(p < n, A.get(p) > v)); st.add(z3.Implies(p > lo, A.get(p - 1) <= v))
        N = GA(ArrFn(lambda i, A=A, p=p, v=v: z3.If(i < p, A.get(i), z3.If(i == p, v, A.get(i - 1)))))
        self.init(st, k, N, lo, n + 1)


class AllJobs:
    """the vector of all jobs: n distinct jobs"""

    def __init__(self, ex, st, X):
        self.J = Jobs(ex)
        self.n = z3.Int("jobs"); st.add(And(self.n >= 0, self.n < 2 ** 31))
        b = ex.new_obj("all_jobs", 8 * self.n, None, "heap"); b.elem = "ptr"
        b.regions.append(Region(0, 8, self.n))
        self.L = ex.arr_get(st, b, b.regions[0], 0, "ptr")
        off = ex.foff(EX, "all_jobs_vector"); c = st.cells(X.o, True)
        c[off] = (8, "ptr", Ptr(b)); c[off + 8] = (8, "ptr", Ptr(b, 0, [(8, self.n)]))
        self.pos = z3.Function("job_index", I_, I_)
        i = z3.Int("_ji"); l = self.L.get(i)
        st.addq(z3.ForAll([i], And(l > 0, self.J.ranges(st, l)), patterns=[l]))
        st.addq(z3.ForAll([i], z3.Implies(And(0 <= i, i < self.n), self.pos(l) == i), patterns=[l]))

    def within(self, a, v): return And(0 <= self.pos(a), self.pos(a) < v, a == self.L.get(self.pos(a)))


def literal(ex, p):
    """text of a string literal"""
    for m in ex.modules:
        for n, g in m.globals.items():
            if isinstance(p, Ptr) and p.obj.name in (n, "@" + n):
                r = re.search(r'c"(.*)\\00"', g)
                if r: return r.group(1)
    return None


def rescale(ctx):
    ex = mk(ctx); ex.merge_calls = True; st = State(); X = Executive(ex, st, ranges=False)
    st.ghost["calls"] = Rec()
    old, new = X.v0["time_tic_value"], z3.Int("new_tic_value")
    st.add(And(old >= 1, new >= 1, new < 2 ** 31))
    units(ex, [([z3.ToReal(new)], [z3.ToReal(old)], S), ([z3.ToReal(new)], [], T)])
    x_, y_ = z3.Reals("_x _y")
    st.addq(z3.ForAll([x_, y_], z3.Implies(x_ <= y_, S(x_) <= S(y_)), patterns=[z3.MultiPattern(S(x_), S(y_))]))
    sf, ff = z3.Real("software_frame"), z3.Real("freeze_frame")
    ex.setf(st, X.o, "software_frame", sf, "double"); ex.setf(st, X.o, "freeze_frame", ff, "double")
    for v in (sf, ff): st.add(And(T(v) >= 0, T(v) <= lim))
    TIMES = ("time_tics", "next_frame_check_tics", "terminate_time", "freeze_time_tics", "next_freeze_frame_check_tics")
    for f in TIMES: st.add(fits(X.v0[f]))
    A = AllJobs(ex, st, X); J, L, n = A.J, A.L, A.n
    Q = PQ(ex, st, X.o, ex.foff(EX, "freeze_times"), "freeze_time")
    i, a, j = z3.Ints("_ri _ra _rj")
    st.addq(FA([i], z3.Implies(And(0 <= i, i < Q.n0), And(Q.a0.get(i) < MAXLL - 1, fits(Q.a0.get(i)))), [Q.a0.get(i)]))
    JF = ("start_tics", "stop_tics", "next_tics")
    for f in JF: st.addq(FA([i], fits(J.get(st, f, L.get(i))), [L.get(i)]))
    cyc = lambda s, a: J.get(s, "cycle", a)
    st.addq(FA([i], And(T(cyc(st, L.get(i))) >= -lim, T(cyc(st, L.get(i))) <= lim, J.get(st, "cycle_tics", L.get(i)) >= -BIG, J.get(st, "cycle_tics", L.get(i)) <= BIG), [L.get(i)]))
    TF = ("amf_next_tics", "curr_time_tics")
    for f in TF: st.addq(FA([i], And(X.th(st, f, X.T.get(i)) < MAXLL - 1, fits(X.th(st, f, X.T.get(i)))), [X.T.get(i)]))
    amf = lambda s, a: X.th(s, "amf_cycle", a)
    st.addq(FA([i], And(T(amf(st, X.T.get(i))) >= -lim, T(amf(st, X.T.get(i))) <= lim), [X.T.get(i)]))
    qk = ("F", "class." + CQ, ex.foff(CQ, "next_job_time"))
    njt = lambda s: ex.heap_arr(s, qk, "i64")
    st.addq(FA([i], And(njt(st).get(X.queue(X.T.get(i))) <= MAXLL, fits(njt(st).get(X.queue(X.T.get(i))))), [X.T.get(i)]))
    EQ = {}
    for q in ("input_processor_run_queue", "freeze_scheduled_queue"):
        EQ[q] = z3.Int(q + "_next"); st.add(And(EQ[q] <= MAXLL, fits(EQ[q])))
        st.cells(X.o, True)[ex.foff(EX, q) + ex.foff(CQ, "next_job_time")] = (8, "i64", EQ[q])
    integ = z3.Function("is_integ_loop", I_, I_)
    noff = ex.foff(CJ, "job_class_name")

    def compare(ex, s, a, x):
        if literal(ex, a[1]) != "integ_loop": return ex.fresh("i32", "cmp", s)
        return integ(zint(ex.addr(a[0])) - noff)
    ex.patterns.append((re.compile(r"^std::__cxx11::basic_string<.*>::compare\(char const\*\)"), compare))
    ex.patterns.append((re.compile(r"^(bool )?std::operator==.*basic_string"), lambda ex, s, a, x: compare(ex, s, a, x) == 0))
    ex.patterns.append((re.compile(r"std::__cxx11::basic_string<.*::c_str"), lambda ex, s, a, x: ex.fresh("ptr", "str", s)))
    ex.handlers["message_publish"] = lambda ex, s, a, x: 0
    # jobs that are told: one walk over their queue
    for k in ("walk", "rc", "job"): st.ghost[k] = G(z3.IntVal(0))
    tq = zint(X.embedded("time_tic_changed_queue"))

    def reset(ex, s, a, x):
        ex.prove(s, zint(ex.addr(a[0])) == tq, "the jobs told are those in the queue for it", assume=False)
        s.ghost["walk"] = G(z3.IntVal(1)); s.ghost["job"] = G(z3.IntVal(0)); return None

    def getnext(ex, s, a, x):
        ex.prove(s, And(zint(ex.addr(a[0])) == tq, s.ghost["walk"].v == 1, s.ghost["job"].v == 0, s.ghost["rc"].v == 0), "the queue is walked from its first job, every job is called, a failure ends the walk", assume=False)
        s2 = s.fork(); s2.ghost["walk"] = G(z3.IntVal(2))
        v = ex.fresh("ptr", "job", s); va = zint(ex.addr(v)); s.add(va > 0); s.ghost["job"] = G(va)
        return [Outcome("ret", s, v), Outcome("ret", s2, NULL)]

    def jcall(ex, s, a, x):
        ex.prove(s, And(zint(ex.addr(a[0])) == s.ghost["job"].v), "the job found is called", assume=False)
        ex.prove(s, And(zint(X.get(s, "time_tic_value")) == new, zint(X.get(s, "old_time_tic_value")) == old), "the jobs told find the new and the old resolution", assume=False)
        r = z3.Int(ex.fresh_name("rc")); s.add(And(r >= -2 ** 31, r < 2 ** 31)); s.ghost["rc"] = G(r); s.ghost["job"] = G(z3.IntVal(0)); return r
    P = lambda nm: re.compile(r"^Trick::%s\(" % nm)
    ex.patterns += [(P("ScheduledJobQueue::reset_curr_index"), reset), (P("ScheduledJobQueue::get_next_job"), getnext), (P("JobData::call"), jcall)]
    ex.assumed.add("the jobs told about the change leave the times of the executive, its threads and its jobs alone")
    s0 = st.fork()
    for f in X.TK: X.tharr(s0, f)
    for f in J.KIND: J.arr(s0, f)
    first = lambda a: And(integ(a) == 0, J.get(s0, "next_tics", a) == J.get(s0, "start_tics", a) + J.get(s0, "cycle_tics", a))

    def jrel(s, f, a):
        if f == "cycle_tics": return near(J.get(s, f, a), T(cyc(s0, a)))
        if f == "next_tics": return z3.If(first(a), J.get(s, f, a) == J.get(s, "start_tics", a) + J.get(s, "cycle_tics", a), rel(J.get(s, f, a), J.get(s0, f, a)))
        return rel(J.get(s, f, a), J.get(s0, f, a))
    JA = ("cycle_tics",) + JF
    thin = lambda a, v: And(0 <= X.pos(a), X.pos(a) < v, a == X.T.get(X.pos(a)))

    def trel(s, f, a):
        if f == "amf_cycle_tics": return near(X.th(s, f, a), T(amf(s0, a)))
        return rel(X.th(s, f, a), X.th(s0, f, a))
    TA = ("amf_cycle_tics",) + TF
    rnd = lambda r: z3.If(r >= 0, z3.ToInt(r + z3.Q(1, 2)), -z3.ToInt(-r + z3.Q(1, 2)))

    def cands(V):
        s = V.st; c = []
        mod = lambda k: not V.H or ("heap", k) in V.H       # what the loop leaves alone needs no invariant
        for nm, v in V.all_pos():
            v = zint(v)
            c += [("%s >= 0" % (nm,), v >= 0), ("%s <= jobs" % (nm,), v <= n), ("%s <= threads" % (nm,), v <= X.m)]
            for f in JA:
                m = mod(("F", "class." + CJ, ex.foff(CJ, f))); H = J.arr(s, f)
                c.append(("%s of jobs before %s" % (f, nm), FA([a], z3.Implies(A.within(a, v), jrel(s, f, a)), [H.get(a)]) if m else True))
                c.append(("%s of the other jobs (%s)" % (f, nm), FA([a], z3.Implies(Not(A.within(a, v)), H.get(a) == J.get(s0, f, a)), [H.get(a)]) if m else True))
                if m: c.append(("%s of jobs from %s on" % (f, nm), FA([a], z3.Implies(And(A.within(a, n), Not(A.within(a, v))), jrel(s, f, a)), [H.get(a)])))
                if m: c.append(("%s of the jobs not from %s on" % (f, nm), FA([a], z3.Implies(Not(And(A.within(a, n), Not(A.within(a, v)))), H.get(a) == J.get(s0, f, a)), [H.get(a)])))
            for f in TA:
                m = mod(("F", "class." + TH, ex.foff(TH, f))); H = X.tharr(s, f)
                c.append(("%s of threads before %s" % (f, nm), FA([a], z3.Implies(thin(a, v), trel(s, f, a)), [H.get(a)]) if m else True))
                c.append(("%s of the other threads (%s)" % (f, nm), FA([a], z3.Implies(Not(thin(a, v)), H.get(a) == X.th(s0, f, a)), [H.get(a)]) if m else True))
            H = njt(s); m = mod(qk)
            c.append(("queues before %s" % (nm,), FA([a], z3.Implies(thin(a - X.jq, v), rel(H.get(a), njt(s0).get(a))), [H.get(a)]) if m else True))
            c.append(("other queues (%s)" % (nm,), FA([a], z3.Implies(Not(thin(a - X.jq, v)), H.get(a) == njt(s0).get(a)), [H.get(a)]) if m else True))
        for k in ("walk", "rc", "job"): c += [("%s = %d" % (k, y), s.ghost[k].v == y if not V.H or ("ghost", k) in V.H else True) for y in (0, 1, 2)]
        m = not V.H or any(k[0] == "ghost" and k[1].startswith("pq.") for k in V.H)
        A0, lo, hi = Q.get(s, Q.key)
        c += [("times taken", And(0 <= lo, lo <= hi, hi == Q.n0) if m else True), ("times kept", FA([i], z3.Implies(And(lo <= i, i < hi), A0.get(i) == Q.a0.get(i)), [A0.get(i)]) if m else True)]
        for k in Q.keys(s):
            if k == Q.key: continue
            B, l2, n2 = Q.get(s, k)
            c += [("as many as taken", And(l2 == 0, n2 == lo) if m else True)]
            for nm, f in (("rounded", lambda x: rnd(S(x))), ("truncated", lambda x: z3.If(S(x) >= 0, z3.ToInt(S(x)), -z3.ToInt(-S(x)))), ("down", lambda x: z3.ToInt(S(x)))):
                c.append(("times %s" % nm, FA([i], z3.Implies(And(0 <= i, i < n2), B.get(i) == f(z3.ToReal(Q.a0.get(i)))), [B.get(i)]) if m else True))
        return c
    ex.cands_fn = cands; ex.loop_policy = "inv"
    done = 0
    for o in ex.call(st, meth(ex, "Trick::Executive::set_time_tic_value("), [X.this(), new]):
        s = o.st; rc = s.ghost["rc"].v; q = z3.Int("q"); b = z3.Int("b")
        P_ = lambda g, t, **k: ex.prove(s, g, t, assume=False, **k)
        P_(zint(o.val) == rc, "the first failure is returned, otherwise 0")
        P_(And(X.get(s, "time_tic_value") == new, X.get(s, "old_time_tic_value") == old), "the new resolution is stored, the old one remembered")
        g = ex.global_obj("_ZN5Trick7JobData14time_tic_valueE", [m for m in ex.modules if m.global_def("_ZN5Trick7JobData14time_tic_valueE")][-1])
        P_(Eq(ex.load(s, Ptr(g), I(64), "spec"), new), "jobs use the new resolution")
        for f in TIMES: P_(rel(X.get(s, f), X.v0[f]), "%s stays the same time" % f)
        P_(near(X.get(s, "software_frame_tics"), T(sf)), "the software frame stays the same"); P_(near(X.get(s, "freeze_frame_tics"), T(ff)), "the freeze frame stays the same")
        for f in JA: P_(z3.Implies(And(0 <= q, q < n), jrel(s, f, L.get(q))), "the %s of every job stays the same time" % f)
        for f in J.KIND: P_(z3.Implies(Not(A.within(b, n)) if f in JA else True, J.get(s, f, b) == J.get(s0, f, b)), "no other job data changes (%s)" % f)
        A0, lo, hi = Q.get(s, Q.key)
        P_(And(hi - lo == Q.n0), "no pending freeze is lost, none appears")
        P_(z3.Implies(And(0 <= q, q < Q.n0), near(A0.get(lo + q), S(z3.ToReal(Q.a0.get(q))))), "every pending freeze stays at the same time")
        P_(z3.Implies(And(0 <= q, q < X.m), rel(njt(s).get(X.queue(X.T.get(q))), njt(s0).get(X.queue(X.T.get(q))))), "the next event of every thread stays at the same time")
        for e, v in EQ.items(): P_(rel(ex.load_cell(s, X.o, ex.foff(EX, e) + ex.foff(CQ, "next_job_time"), "i64", 8, "spec"), v), "the next event of the %s stays at the same time" % e)
        ok = rc == 0
        for f in TA: P_(z3.Implies(And(ok, 0 <= q, q < X.m), trel(s, f, X.T.get(q))), "the %s of every thread stays the same time" % f)
        P_(z3.Implies(ok, s.ghost["walk"].v == 2), "every job that has to be told is called")
        X.frame(s, s0, TIMES + ("time_tic_value", "old_time_tic_value", "software_frame_tics", "freeze_frame_tics"), TA)
        done += 1; ctx.cover(ex, s, "return %d" % done)


def lemma(ctx):
    """what the named quotient means: the same time in seconds; and a tic count survives the way to seconds and back"""
    ex = ctx.exec(mode="int", fmode="real"); st = State()
    x, v = z3.Ints("x v"); o, n = z3.Reals("old new"); t = z3.Real("t")
    ex.prove(st, z3.Implies(And(o > 0, n > 0, t == z3.ToReal(x) / o * n, near(v, t), z3.ToReal(z3.ToInt(t)) == t), z3.ToReal(v) / n == z3.ToReal(x) / o), "the same number of seconds, when the new resolution can represent it", "lemma", assume=False)
    y, z = z3.Reals("y z")
    ex.prove(st, z3.Implies(And(o > 0, n > 0, y <= z), y / o * n <= z / o * n), "later stays later", "lemma", assume=False)
    ex.prove(st, z3.Implies(And(n > 0, near(v, (z3.ToReal(x) / n) * n)), v == x), "tics to seconds to tics is the identity", "lemma", assume=False)
    ctx.cover(ex, st, "lemma")


def events(ctx):
    ex = ctx.exec(mode="int", fmode="real"); st = State()
    EVM, EVT = "Trick::EventManager", "Trick::Event"
    M = ex.struct_obj(None, EVM, "manager")
    n = z3.Int("events"); st.add(And(n >= 0, n < 2 ** 31))
    b = ex.new_obj("active", 8 * n, None, "heap"); b.elem = "ptr"; b.regions.append(Region(0, 8, n))
    L = ex.arr_get(st, b, b.regions[0], 0, "ptr")
    ex.setf(st, M, "active_events", Ptr(b), "ptr"); ex.setf(st, M, "num_active_events", n, "i32")
    old, new = z3.Ints("old_tic_value new_tic_value"); st.add(And(old >= 1, new >= 1, old < 2 ** 31, new < 2 ** 31))
    ex.handlers["exec_get_old_time_tic_value"] = lambda ex, s, a, x: old
    ex.handlers["exec_get_time_tic_value"] = lambda ex, s, a, x: new
    units(ex, [([z3.ToReal(new)], [z3.ToReal(old)], S), ([z3.ToReal(new)], [], T)])
    KIND = dict(cycle="double", cycle_tics="i64", next_tics="i64")
    arr = lambda s, f: ex.heap_arr(s, ("F", "class." + EVT, ex.foff(EVT, f)), KIND[f])
    i, a = z3.Ints("_ei _ea"); pos = z3.Function("event_index", I_, I_)
    s0 = st.fork()
    for f in KIND: arr(s0, f)
    st.addq(FA([i], And(L.get(i) > 0, fits(arr(s0, "next_tics").get(L.get(i))), arr(s0, "next_tics").get(L.get(i)) < MAXLL - 1, T(arr(s0, "cycle").get(L.get(i))) <= lim, T(arr(s0, "cycle").get(L.get(i))) >= -lim), [L.get(i)]))
    st.addq(FA([i], z3.Implies(And(0 <= i, i < n), pos(L.get(i)) == i), [L.get(i)]))
    within = lambda a, v: And(0 <= pos(a), pos(a) < v, a == L.get(pos(a)))
    r = {"next_tics": lambda s, a: rel(arr(s, "next_tics").get(a), arr(s0, "next_tics").get(a)), "cycle_tics": lambda s, a: near(arr(s, "cycle_tics").get(a), T(arr(s0, "cycle").get(a)))}

    def cands(V):
        s = V.st; c = [("%s same" % f, FA([a], arr(s, f).get(a) == arr(s0, f).get(a), [arr(s, f).get(a)])) for f in KIND]
        for nm, v in V.all_pos():
            v = zint(v); c += [("%s >= 0" % (nm,), v >= 0), ("%s <= events" % (nm,), v <= n)]
            for f, g in r.items():
                H = arr(s, f)
                c.append(("%s before %s" % (f, nm), FA([a], z3.Implies(within(a, v), g(s, a)), [H.get(a)])))
                c.append(("%s others %s" % (f, nm), FA([a], z3.Implies(Not(within(a, v)), H.get(a) == arr(s0, f).get(a)), [H.get(a)])))
        return c
    ex.cands_fn = cands; ex.loop_policy = "inv"
    for o in ex.call(st, meth(ex, "Trick::EventManager::time_tic_changed("), [Ptr(M)]):
        s = o.st; q, y = z3.Ints("q y")
        ex.prove(s, Eq(o.val, 0), "success", assume=False)
        for f, g in r.items():
            ex.prove(s, z3.Implies(And(0 <= q, q < n), g(s, L.get(q))), "the %s of every active event stays the same time" % f, assume=False)
            ex.prove(s, z3.Implies(Not(within(y, n)), arr(s, f).get(y) == arr(s0, f).get(y)), "no other event changes", "frame", assume=False)
        ex.prove(s, arr(s, "cycle").get(y) == arr(s0, "cycle").get(y), "the cycles in seconds stay", "frame", assume=False)
        ctx.cover(ex, s, "return")


def convert(ctx):
    def mkx(n):
        ex = mk(ctx); st = State(); X = Executive(ex, st, ranges=False)
        tv = X.v0["time_tic_value"]; st.add(tv >= 1)
        units(ex, [([], [z3.ToReal(tv)], D), ([z3.ToReal(tv)], [], T)])
        return ex, st, X
    Pm = lambda ex, s, g, t, k="post": ex.prove(s, g, t, k, assume=False)
    for nm in ("get_sim_time", "get_time_tics"):
        ex, st, X = mkx(nm)
        me = z3.Int("this_thread"); st.add(And(me >= -2 ** 63, me < 2 ** 63)); pid = z3.Function("pthread_id", I_, I_)
        ex.handlers["pthread_self"] = lambda ex, s, a, x: me
        ex.handlers["pthread_equal"] = lambda ex, s, a, x: z3.If(zint(a[0]) == zint(a[1]), z3.IntVal(1), z3.IntVal(0))
        ex.patterns.append((re.compile(r"^Trick::ThreadBase::get_pthread_id\("), lambda ex, s, a, x: pid(zint(ex.addr(a[0])))))
        s0 = st.fork(); j = z3.Int("_qj")
        for f in X.TK: X.tharr(s0, f)

        def cands(V):
            c = []
            for n, v in V.all_pos(): v = zint(v); c += [("%s >= 0" % (n,), v >= 0), ("%s <= threads" % (n,), v <= X.m), ("not before %s" % (n,), FA([j], z3.Implies(And(0 <= j, j < v), pid(X.T.get(j)) != me), [X.T.get(j)]))]
            return c
        ex.cands_fn = cands; ex.loop_policy = "inv"
        for o in ex.call(st, meth(ex, "Trick::Executive::%s(" % nm), [X.this()]):
            s = o.st; q = z3.Int("q"); e = lambda t: (rv(o.val) == D(z3.ToReal(t))) if nm == "get_sim_time" else zint(o.val) == t
            none = FA([j], z3.Implies(And(0 <= j, j < X.m), pid(X.T.get(j)) != me), [X.T.get(j)])
            Pm(ex, s, z3.Implies(X.m == 1, e(X.th(s0, "curr_time_tics", X.T.get(z3.IntVal(0))))), "with one thread the time is its own")
            Pm(ex, s, z3.Implies(And(X.m > 1, none), e(X.v0["time_tics"])), "outside the threads it is the simulation time")
            Pm(ex, s, z3.Implies(X.m > 1, Or(none, z3.Exists([j], And(0 <= j, j < X.m, pid(X.T.get(j)) == me, e(X.th(s0, "curr_time_tics", X.T.get(j))))))), "in a thread it is the thread's time")
            X.frame(s, s0); ctx.cover(ex, s, "return")
    ex, st, X = mkx("get_terminate_time")
    for o in ex.call(st, meth(ex, "Trick::Executive::get_terminate_time("), [X.this()]):
        Pm(ex, o.st, rv(o.val) == D(z3.ToReal(X.v0["terminate_time"])), "the termination time in seconds is exactly that in tics"); ctx.cover(ex, o.st, "return")
    for nm, f in (("set_terminate_time", "terminate_time"), ("set_software_frame", "software_frame_tics"), ("set_freeze_frame", "freeze_frame_tics")):
        ex, st, X = mkx(nm); t = z3.Real("seconds"); st.add(And(T(t) >= -lim, T(t) <= lim)); s0 = st.fork()
        ss = z3.Real("sim_start"); ex.setf(st, X.o, "sim_start", ss, "double"); st.add(And(T(ss) >= -lim, T(ss) <= lim))
        for o in ex.call(st, meth(ex, "Trick::Executive::%s(" % nm), [X.this(), t]):
            Pm(ex, o.st, near(X.get(o.st, f), T(t)), "%s is the time asked for" % f); Pm(ex, o.st, Eq(o.val, 0), "success")
            X.frame(o.st, s0, (f, f.replace("_tics", "")) + (("next_frame_check_tics",) if nm == "set_software_frame" else ()))
            ctx.cover(ex, o.st, "return")
    # cycles
    ex = mk(ctx); st = State(); X = Executive(ex, st, ranges=False); tv = z3.Int("tics_per_second"); st.add(And(tv >= 1, tv < 2 ** 31)); c = z3.Real("cycle")
    units(ex, [([z3.ToReal(tv)], [], T)]); st.add(And(T(c) >= -lim, T(c) <= lim)); a = X.T.get(z3.IntVal(0))
    s0 = st.fork()
    for f in X.TK: X.tharr(s0, f)
    for o in ex.call(st, meth(ex, "Trick::Threads::set_amf_cycle("), [ex.dec(a), c, tv]):
        s = o.st; y = z3.Int("y")
        Pm(ex, s, And(X.th(s, "amf_cycle", a) == c, near(X.th(s, "amf_cycle_tics", a), T(c))), "the thread's cycle is the one asked for")
        for f in X.TK: Pm(ex, s, z3.Implies(y != a if f in ("amf_cycle", "amf_cycle_tics") else True, X.th(s, f, y) == X.th(s0, f, y)), "no other thread data changes (%s)" % f, "frame")
        ctx.cover(ex, s, "return")


CS = [Contract("set_time_tic_value", rescale, SRC, ["Trick::Executive::set_time_tic_value", "Trick::Threads::time_tic_changed", "Trick::ScheduledJobQueue::time_tic_changed", "Trick::JobData::calc_cycle_tics"]),
      Contract("EventManager::time_tic_changed", events, [EV], ["Trick::EventManager::time_tic_changed", "Trick::Event::set_cycle"]),
      Contract("conversions", convert, SRC, ["Trick::Executive::get_sim_time", "Trick::Executive::get_time_tics", "Trick::Executive::get_terminate_time", "Trick::Executive::set_terminate_time", "Trick::Executive::set_software_frame", "Trick::Executive::set_freeze_frame", "Trick::Threads::set_amf_cycle"]),
      Contract("the same time in seconds", lemma, SRC, [])]
NAT = SRC + [EV, ED + "ExecutiveException.cpp", ED + "Threads.cpp", ED + "ThreadTrigger.cpp", "trick_source/sim_services/ThreadBase/ThreadBase.cpp", "trick_source/sim_services/SimObject/SimObject.cpp"]
CHECK = Check("C04", CS, Native("native/c04.cpp", NAT))
