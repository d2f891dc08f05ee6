"""C01: the job queue keeps jobs in order, loses none, runs each enabled one once."""
from jobq import *
import models
SRC = [SQ, JD]


def mk(ctx, **kw):
    ex = ctx.exec(mode="int", fmode="real", **kw)
    ex.virt["resolve"] = job_virtual
    return ex


def idx_ptr(ex, v):
    """element index of a pointer into an array of job pointers"""
    if not isinstance(v, Ptr) or not isinstance(v.obj, Obj) or not v.obj.regions: return None
    return models.index_in(ex, v.obj.regions[0], v)


def positions(V):
    r = [(n, v) for n, v in V.all_ints()]
    for n, v in V.all_ptrs():
        i = idx_ptr(V.ex, v)
        if i is not None: r.append((("@", n), i))
    return r


def arrays(V):
    """arrays of job pointers alive in the loop"""
    r = []
    ks = dict(V.st.arrs)
    for loc in V.H:
        if loc[0] == "arr" and loc[1] not in ks:
            k = loc[1]; o = V.ex.objs[k[0]]
            for rg in o.regions:
                if (rg.start, rg.stride) == k[1:3]: ks[k] = V.ex.arr_get(V.st, o, rg, k[3], "ptr")
    for k, a in sorted(ks.items(), key=lambda y: y[0]):
        o = V.ex.objs.get(k[0])
        if o is not None and k[0] not in V.st.freed and k[2] == 8 and k[3] == 0: r.append((k[0], a))
    return r


def push_cands(Qx, new, p):
    def f(V):
        c = []
        P = positions(V)
        n = Qx.n
        for nm, v in P:
            c += [("%s >= 0" % (nm,), zint(v) >= 0), ("%s <= size" % (nm,), zint(v) <= n), ("%s <= insertion point" % (nm,), zint(v) <= p), ("%s >= insertion point" % (nm,), zint(v) >= p)]
        for i, (nm, v) in enumerate(P):
            for nm2, w in P:
                if nm == nm2: continue
                c += [("insertion point <= %s + %s" % (nm, nm2), zint(v) + zint(w) >= p), ("%s + %s <= size" % (nm, nm2), zint(v) + zint(w) <= n)]
        j = z3.Int("_cj")
        for oid, a in arrays(V):
            if a is Qx.L and not V.H: continue
            for nm, v in P:
                v = zint(v)
                aj = a.get(j)
                c.append(("array %d: hole at %s" % (oid, nm), z3.ForAll([j], z3.Implies(And(j >= 0, j <= n, j != v), aj == z3.If(j < v, Qx.L.get(j), Qx.L.get(j - 1))))))
                c.append(("array %d: copied below %s" % (oid, nm), z3.ForAll([j], z3.Implies(And(j >= 0, j < v, j < p), aj == Qx.L.get(j)))))
                c.append(("array %d: copied behind %s" % (oid, nm), z3.ForAll([j], z3.Implies(And(j > p, j < v), aj == Qx.L.get(j - 1)))))
        return c
    return f


def boundary(ex, st, Qx, new, lt):
    """the insertion point: existence is lemma 'insertion point exists'"""
    p = z3.Int("insertion_point"); i = z3.Int("_bi")
    st.add(And(p >= 0, p <= Qx.n))
    st.addq(z3.ForAll([i], z3.Implies(And(0 <= i, i < p), Not(lt(Qx.L.get(i)))), patterns=[Qx.L.get(i)]))
    st.addq(z3.ForAll([i], z3.Implies(And(p <= i, i < Qx.n), lt(Qx.L.get(i))), patterns=[Qx.L.get(i)]))
    return p


def push(ignore, first):
    def run(ctx):
        ex = mk(ctx)
        st = State()
        Qx = Q(ex, st)
        if first:
            st.add(Qx.n == 0); ex.setf(st, Qx.q, "list", NULL, "ptr"); ex.setf(st, Qx.q, "list_size", 0, "i32")
        new = ex.fresh("ptr", "new_job", st)
        na = zint(ex.addr(new)); st.add(na > 0)
        J = Qx.jobs
        st.add(J.ranges(st, na))
        i = z3.Int("_d")
        st.addq(z3.ForAll([i], Qx.L.get(i) != na, patterns=[Qx.L.get(i)]))
        k0 = J.key(st, na)
        if ignore: k0[2] = z3.IntVal(1000000)
        lt = lambda a: lex(k0, J.key(s0, a))
        s0 = st.fork()
        for x in Jobs.KIND: J.arr(s0, x)
        st.addq(sorted_queue(Qx, s0))
        p = boundary(ex, st, Qx, new, lt)
        ex.cands_fn = push_cands(Qx, new, p)
        for o in ex.call(st, meth(ex, "Trick::ScheduledJobQueue::push%s(" % ("_ignore_sim_object" if ignore else "")), [Qx.this(), new]):
            s = o.st
            ex.prove(s, Eq(o.val, 0), "success is returned", assume=False)
            ex.prove(s, Eq(Qx.size(s), Qx.n + 1), "the queue grows by one", assume=False)
            q = z3.Int("q")
            e = Qx.elem(s, q)
            ex.prove(s, z3.Implies(And(q >= 0, q < p), e == Qx.L.get(q)), "jobs before the insertion point stay", assume=False)
            ex.prove(s, z3.Implies(q == p, e == na), "the new job is at its insertion point, behind its equals", assume=False)
            ex.prove(s, z3.Implies(And(q > p, q <= Qx.n), e == Qx.L.get(q - 1)), "jobs behind the insertion point move up by one", assume=False)
            b = Qx.block(s)
            ex.prove(s, b is not None and b.size is not None and zint(b.size) >= 8 * (Qx.n + 1), "the block holds the jobs", assume=False)
            ex.prove(s, Eq(Qx.cur(s), z3.If(p < Qx.curr, Qx.curr + 1, Qx.curr)), "the current index stays on the same job", assume=False)
            ex.prove(s, Eq(Qx.njt(s), Qx.t0), "the next job call time does not change", assume=False)
            if not ignore:
                a, c = z3.Int("qa"), z3.Int("qb")
                ja, jb = Qx.elem(s, a), Qx.elem(s, c)
                s2 = s.fork()
                ex.prove(s2, z3.Implies(And(0 <= a, a < c, c <= Qx.n), Not(lex(J.key(s, jb), J.key(s, ja)))), "the queue stays in order", assume=False)
            ex.prove(s, J.get(s, "handled", na) == 1, "the job is marked handled", assume=False)
            Qx.same_jobs(ex, s, ("handled",))
            ctx.cover(ex, s, "return")
    return Contract(("push_ignore_sim_object" if ignore else "push") + (" into an empty queue" if first else ""), run, SRC, ["Trick::ScheduledJobQueue::push" + ("_ignore_sim_object" if ignore else "")])



def find_cands(Qx, x):
    """loops of remove and of the walks over the queue"""
    def f(V):
        c, P = [], positions(V)
        j = z3.Int("_cj")
        n, L = Qx.n, Qx.L
        for nm, v in P:
            v = zint(v)
            c += [("%s >= 0" % (nm,), v >= 0), ("%s <= size" % (nm,), v <= n), ("not found before %s" % (nm,), z3.ForAll([j], z3.Implies(And(0 <= j, j < v), L.get(j) != x), patterns=[L.get(j)]))]
        for oid, a in arrays(V):
            if a is L: continue
            aj = a.get(j)
            for nm, v in P:
                v = zint(v)
                for nm2, w in P + [("removed", z3.Int("removed"))]:
                    if nm2 == nm: continue
                    w = zint(w)
                    if nm2 != "removed": c.append(("%s skips the removed one, as against %s" % (nm, nm2), v == w - z3.If(w > z3.Int("removed"), 1, 0)))
                    c.append(("array %d: copied below %s, shifted from %s" % (oid, nm, nm2), z3.ForAll([j], z3.Implies(And(0 <= j, j < v), aj == z3.If(j < w, L.get(j), L.get(j + 1))))))
                    c.append(("array %d: copied below %s - 1, shifted from %s" % (oid, nm, nm2), z3.ForAll([j], z3.Implies(And(0 <= j, j < v - 1), aj == z3.If(j < w, L.get(j), L.get(j + 1))))))
                c.append(("array %d: copied below %s" % (oid, nm), z3.ForAll([j], z3.Implies(And(0 <= j, j < v), aj == L.get(j)))))
        return c
    return f


def remove(present):
    def run(ctx):
        ex = mk(ctx)
        st = State()
        Qx = Q(ex, st)
        x = ex.fresh("ptr", "job", st); xa = zint(ex.addr(x))
        r = z3.Int("removed"); j = z3.Int("_rj")
        if present:
            st.add(And(r >= 0, r < Qx.n, Qx.L.get(r) == xa))
            st.addq(z3.ForAll([j], z3.Implies(And(0 <= j, j < r), Qx.L.get(j) != xa), patterns=[Qx.L.get(j)]))
        else: st.addq(z3.ForAll([j], z3.Implies(And(0 <= j, j < Qx.n), Qx.L.get(j) != xa), patterns=[Qx.L.get(j)]))
        ex.cands_fn = find_cands(Qx, xa)
        ex.loop_policy = "inv"
        seen = []
        s0 = st.fork()
        for f in Jobs.KIND: Qx.jobs.arr(s0, f)
        for o in ex.call(st, meth(ex, "Trick::ScheduledJobQueue::remove("), [Qx.this(), x]):
            s = o.st; q = z3.Int("q")
            e = Qx.elem(s, q)
            if present:
                ex.prove(s, Eq(o.val, 0), "success is returned", assume=False)
                ex.prove(s, Eq(Qx.size(s), Qx.n - 1), "the queue shrinks by one", assume=False)
                ex.prove(s, z3.Implies(And(q >= 0, q < r), e == Qx.L.get(q)), "jobs before the removed one stay", assume=False)
                ex.prove(s, z3.Implies(And(q >= r, q < Qx.n - 1), e == Qx.L.get(q + 1)), "jobs behind the removed one move down by one", assume=False)
                ex.prove(s, Eq(Qx.cur(s), z3.If(r < Qx.curr, Qx.curr - 1, Qx.curr)), "the current index stays on the same job", assume=False)
            else:
                ex.prove(s, Eq(o.val, -1), "failure is returned", assume=False)
                ex.prove(s, And(Eq(Qx.size(s), Qx.n), Eq(Qx.cur(s), Qx.curr)), "size and current index do not change", assume=False)
                ex.prove(s, z3.Implies(And(q >= 0, q < Qx.n), e == Qx.L.get(q)), "the jobs stay", assume=False)
            ex.prove(s, Eq(Qx.njt(s), Qx.t0), "the next job call time does not change", assume=False)
            Qx.same_jobs(ex, s)
            seen.append(s)
        ctx.cover_some(ex, seen, "return")
    return Contract("remove, job " + ("in the queue" if present else "not in the queue"), run, SRC, ["Trick::ScheduledJobQueue::remove"])


def unchanged_list(ex, s, Qx):
    q = z3.Int("q")
    ex.prove(s, z3.Implies(And(q >= 0, q < Qx.n), Qx.elem(s, q) == Qx.L.get(q)), "the jobs stay in place", "frame", assume=False)
    ex.prove(s, Eq(Qx.size(s), Qx.n), "the size does not change", "frame", assume=False)


def walk_cands(Qx, c0, skip):
    """everything between c0 and the position was skipped"""
    def f(V):
        c = []
        j = z3.Int("_cj")
        P = positions(V) + [("curr", zint(Qx.cur(V.st)))]
        for nm, v in P:
            v = zint(v)
            c += [("%s >= start" % (nm,), v >= c0), ("%s <= size" % (nm,), v <= Qx.n), ("nothing to return before %s" % (nm,), z3.ForAll([j], z3.Implies(And(c0 <= j, j < v), skip(Qx.L.get(j))), patterns=[Qx.L.get(j)]))]
        return c
    return f


def next_job(name, skip_of, margs=lambda ex, st: []):
    """get_next_job / find_job: the first job at or behind the current index that is not to be skipped"""
    def run(ctx):
        ex = mk(ctx)
        st = State()
        Qx = Q(ex, st)
        s0 = st.fork()
        for f in Jobs.KIND: Qx.jobs.arr(s0, f)
        a = margs(ex, st)
        skip = lambda j: skip_of(Qx.jobs, s0, j, *a)
        ex.cands_fn = walk_cands(Qx, Qx.curr, skip)
        for o in ex.call(st, meth(ex, "Trick::ScheduledJobQueue::%s(" % name), [Qx.this()] + a):
            s = o.st; j = z3.Int("j")
            v = zint(ex.addr(o.val)) if isinstance(o.val, Ptr) else zint(o.val)
            cu = zint(Qx.cur(s))
            ex.prove(s, z3.Implies(v == 0, And(cu == Qx.n)), "NULL only at the end of the queue", assume=False)
            ex.prove(s, z3.Implies(v != 0, And(cu > Qx.curr, cu <= Qx.n, v == Qx.L.get(cu - 1), Not(skip(v)))), "the job returned is due, is in the queue and the index moves behind it", assume=False)
            ex.prove(s, z3.Implies(And(Qx.curr <= j, j < cu - z3.If(v == 0, 0, 1)), skip(Qx.L.get(j))), "no job that is due is skipped", assume=False)
            ex.prove(s, Eq(Qx.njt(s), Qx.t0), "the next job call time does not change", assume=False)
            unchanged_list(ex, s, Qx)
            Qx.same_jobs(ex, s)
            ctx.cover(ex, s, "return")
    return Contract(name, run, SRC, ["Trick::ScheduledJobQueue::" + name])


def small(ctx):
    """accessors"""
    def go(name, args=lambda Qx: [], pre=None):
        ex = mk(ctx); st = State(); Qx = Q(ex, st)
        if pre is not None: st.add(pre(Qx))
        for o in ex.call(st, meth(ex, "Trick::ScheduledJobQueue::%s(" % name), [Qx.this()] + args(Qx)): yield ex, o.st, o.val, Qx
    q = z3.Int("q")

    def frame(ex, s, Qx, cur=None, njt=None):
        unchanged_list(ex, s, Qx)
        ex.prove(s, Eq(Qx.cur(s), Qx.curr if cur is None else cur), "current index", assume=False)
        ex.prove(s, Eq(Qx.njt(s), Qx.t0 if njt is None else njt), "next job call time", assume=False)
        Qx.same_jobs(ex, s); ctx.cover(ex, s, "return")
    v = z3.Int("value")
    for ex, s, r, Qx in go("get_curr_index"): ex.prove(s, Eq(r, Qx.curr), "get_curr_index"); frame(ex, s, Qx)
    for ex, s, r, Qx in go("reset_curr_index"): frame(ex, s, Qx, cur=0)
    for ex, s, r, Qx in go("set_curr_index", lambda Qx: [v], lambda Qx: And(v >= 0, v < 2 ** 31)): frame(ex, s, Qx, cur=z3.If(v < Qx.n, v, Qx.curr))
    for ex, s, r, Qx in go("size"): ex.prove(s, Eq(r, Qx.n), "size"); frame(ex, s, Qx)
    for ex, s, r, Qx in go("empty"): ex.prove(s, zb(r) == (Qx.n == 0), "empty"); frame(ex, s, Qx)
    for ex, s, r, Qx in go("top", pre=lambda Qx: Or(Qx.n == 0, Qx.curr < Qx.n)):
        ra = zint(ex.addr(r)) if isinstance(r, Ptr) else zint(r)
        ex.prove(s, ra == z3.If(Qx.n == 0, 0, Qx.L.get(Qx.curr)), "top is the current job"); frame(ex, s, Qx)
    for ex, s, r, Qx in go("set_next_job_call_time", lambda Qx: [v], lambda Qx: And(v >= -2 ** 63, v <= MAXLL)): frame(ex, s, Qx, njt=v)
    for nm in ("clear", "ScheduledJobQueue"):
        for ex, s, r, Qx in go(nm):
            p = Qx.list(s)
            ex.prove(s, And(Eq(Qx.size(s), 0), Eq(Qx.cur(s), 0), Eq(Qx.njt(s), MAXLL), zb(isinstance(p, Ptr) and p.obj is None)), "%s leaves an empty queue" % nm); Qx.same_jobs(ex, s); ctx.cover(ex, s, nm)


def execute_all(ctx):
    """every enabled job is called exactly once, in queue order, until one fails; jobs are assumed not to change the queue"""
    ex = mk(ctx)
    st = State()
    Qx = Q(ex, st)
    s0 = st.fork()
    for f in Jobs.KIND: Qx.jobs.arr(s0, f)
    off = lambda j: Qx.jobs.get(s0, "disabled", j) != 0
    # ghosts: done = position behind the last job called; ok = the calls so far were exactly the enabled jobs before it
    st.ghost["done"] = G(z3.IntVal(0))
    st.ghost["rc"] = G(z3.IntVal(0))

    def getnext(ex, st, args, x):
        """contract of get_next_job (proved above)"""
        c0 = zint(Qx.cur(st)); c1 = z3.Int(ex.fresh_name("curr")); j = z3.Int("_gj")
        ex.prove(st, zb(args[0].same(Qx.this())), "the jobs come from this queue")
        st.add(And(c1 >= c0, c1 <= Qx.n))
        end, got = st.fork(), st
        end.add(c1 == Qx.n)
        end.addq(z3.ForAll([j], z3.Implies(And(c0 <= j, j < c1), off(Qx.L.get(j))), patterns=[Qx.L.get(j)]))
        ex.setf(end, Qx.q, "curr_index", c1, "i32")
        got.add(And(c1 > c0, Not(off(Qx.L.get(c1 - 1))), Qx.L.get(c1 - 1) > 0))
        got.addq(z3.ForAll([j], z3.Implies(And(c0 <= j, j < c1 - 1), off(Qx.L.get(j))), patterns=[Qx.L.get(j)]))
        ex.setf(got, Qx.q, "curr_index", c1, "i32")
        return [Outcome("ret", end, NULL), Outcome("ret", got, ex.dec(Qx.L.get(c1 - 1)))]

    def call(ex, st, cal, args, x):
        nm = job_virtual(ex, st, cal, args, x)
        if "4callEv" not in nm: return nm
        a = zint(ex.addr(args[0])); c = zint(Qx.cur(st)); j = z3.Int("_cj")
        d = st.ghost["done"].v
        ex.prove(st, st.ghost["rc"].v == 0, "no job is called after a job has failed")
        ex.prove(st, And(c > 0, a == Qx.L.get(c - 1), Not(off(a)), d < c), "only the next enabled job is called, once")
        ex.prove(st, z3.ForAll([j], z3.Implies(And(d <= j, j < c - 1), off(Qx.L.get(j)))), "no enabled job is passed over")
        st.ghost["done"] = G(c)
        r = ex.fresh("i32", "rc", st)
        st.ghost["rc"] = G(zint(r))
        return r
    ex.virt["resolve"] = call
    ex.handlers[meth(ex, "Trick::ScheduledJobQueue::get_next_job(").name] = getnext

    def cands(V):
        d, c = V.st.ghost["done"].v, zint(Qx.cur(V.st)); j = z3.Int("_cj"); rc = V.st.ghost["rc"].v
        r = [("rc", rc == 0), ("bounds", And(c >= 0, c <= Qx.n)), ("done", d == c), ("done bounds", And(d >= 0, d <= Qx.n)),
             ("rest disabled", z3.ForAll([j], z3.Implies(And(d <= j, j < c), off(Qx.L.get(j))), patterns=[Qx.L.get(j)]))]
        for nm, v in V.all_ints(): r += [("%s is the result" % (nm,), zint(v) == rc), ("%s is not the result" % (nm,), zint(v) == 0)]
        for nm, v in V.all_ptrs():
            # a job fetched in advance
            a = zint(V.ex.addr(v)) if isinstance(v, Ptr) else zint(v)
            r += [("%s is the next job or none is left" % (nm,), z3.If(a == 0, c == Qx.n, And(d < c, a == Qx.L.get(c - 1), Not(off(a))))),
                  ("%s: nothing passed over" % (nm,), z3.ForAll([j], z3.Implies(And(d <= j, j < c - z3.If(a == 0, 0, 1)), off(Qx.L.get(j))), patterns=[Qx.L.get(j)]))]
        return r
    ex.cands_fn = cands
    ex.loop_policy = "inv"
    for o in ex.call(st, meth(ex, "Trick::ScheduledJobQueue::execute_all_jobs("), [Qx.this()]):
        s = o.st; j = z3.Int("j")
        d, rc = s.ghost["done"].v, s.ghost["rc"].v
        ex.prove(s, zint(o.val) == rc, "the first failure code is returned, otherwise 0", assume=False)
        ex.prove(s, z3.Implies(And(rc == 0, d <= j, j < Qx.n), off(Qx.L.get(j))), "all enabled jobs have run", assume=False)
        unchanged_list(ex, s, Qx)
        Qx.same_jobs(ex, s)
        ctx.cover(ex, s, "return")


class G:
    def __init__(self, v): self.v = v

    @staticmethod
    def havoc(ex, st): return G(z3.Int(ex.fresh_name("ghost")))


def lemma(ctx):
    """a predicate that stays true once true has a boundary: induction step"""
    ex = ctx.exec(mode="int")
    st = State()
    I_, B = z3.IntSort(), z3.BoolSort()
    f = z3.Function("lt_new", I_, B); n, p, p2 = z3.Ints("n p p2"); i, j = z3.Ints("i j")

    def bd(p, n): return And(0 <= p, p <= n, z3.ForAll([i], z3.Implies(And(0 <= i, i < p), Not(f(i))), patterns=[f(i)]), z3.ForAll([i], z3.Implies(And(p <= i, i < n), f(i)), patterns=[f(i)]))
    mono = z3.ForAll([i, j], z3.Implies(And(0 <= i, i <= j, f(i)), f(j)), patterns=[z3.MultiPattern(f(i), f(j))])
    ex.prove(st, bd(z3.IntVal(0), z3.IntVal(0)), "empty queue", "lemma")
    st.add(n >= 0)
    ex.prove(st, z3.Implies(And(mono, bd(p, n)), Or(bd(p, n + 1), bd(n + 1, n + 1))), "one job more", "lemma", assume=False)
    # order: lexicographic comparison is transitive in the way needed: not lt(b, a), lt(x, a) => lt(x, b)
    a, b, x = ([z3.Int("%s%d" % (nm, k)) for k in range(4)] for nm in "abx")
    ex.prove(st, z3.Implies(And(Not(lex(b, a)), lex(x, a)), lex(x, b)), "ordered before a job means ordered before all behind it", "lemma", assume=False)


def job_call(name):
    """the instruments before, the job, the instruments after: each once, in order"""
    def run(ctx):
        ex = mk(ctx); st = State()
        jo = ex.struct_obj(None, CJ, "job")
        par = ex.fresh("ptr", "parent", st); st.add(zint(ex.addr(par)) > 0)
        lists = {}
        for f in ("inst_before", "inst_after"):
            n = z3.Int("n_" + f); st.add(And(n >= 0, n < 2 ** 31))
            o = ex.new_obj(f, 8 * n, None, "heap"); o.elem = "ptr"; o.regions.append(Region(0, 8, n))
            a = ex.arr_get(st, o, o.regions[0], 0, "ptr")
            i = z3.Int("_i"); st.addq(z3.ForAll([i], a.get(i) > 0, patterns=[a.get(i)]))
            off = ex.foff(CJ, f); c = st.cells(jo, True)
            c[off] = (8, "ptr", Ptr(o)); c[off + 8] = (8, "ptr", Ptr(o, 0, [(8, n)])); c[off + 16] = (8, "ptr", Ptr(o, 0, [(8, n)]))
            o.readonly = True
            lists[f] = (n, a)
        ex.setf(st, jo, "parent_object", par, "ptr")
        nb, B = lists["inst_before"]; na, A_ = lists["inst_after"]
        st.ghost["calls"] = G(z3.IntVal(0))
        rc = z3.Real("rc") if name == "call_double" else z3.Int("rc")
        if name == "call": st.add(And(rc >= -2 ** 31, rc < 2 ** 31))

        def virt(ex, st, cal, args, x):
            k = st.ghost["calls"].v
            st.ghost["calls"] = G(k + 1)
            a = zint(ex.addr(args[0]))
            if a.eq(zint(ex.addr(par))):
                ex.prove(st, k == nb, "the job is called once, when every instrument before it has been")
                ex.prove(st, zb(args[1].same(Ptr(jo))), "the job passes itself")
                return rc
            ex.prove(st, Or(And(k < nb, a == B.get(k)), And(k > nb, k <= nb + na, a == A_.get(k - nb - 1))), "the instruments are called in order")
            return ex.fresh("i32", "ret", st)
        ex.virt["resolve"] = virt
        ex.loop_policy = "inv"

        def cands(V):
            k = V.st.ghost["calls"].v
            return [("%s %d" % (nm, b), k == zint(v) + d) for nm, v in positions(V) for b, d in ((0, 0), (1, nb + 1))] + [("%s %s" % (nm, bn), zint(v) <= b) for nm, v in positions(V) for bn, b in (("before", nb), ("after", na))] + [("%s >= 0" % (nm,), zint(v) >= 0) for nm, v in positions(V)]
        ex.cands_fn = cands
        for o in ex.call(st, meth(ex, "Trick::JobData::%s(" % name), [Ptr(jo)]):
            ex.prove(o.st, o.st.ghost["calls"].v == nb + na + 1, "every instrument and the job have been called", assume=False)
            ex.prove(o.st, Eq(o.val, rc), "the job's result is returned", assume=False)
            ctx.cover(ex, o.st, "return")
    return Contract("JobData::" + name, run, SRC, ["Trick::JobData::" + name])


CS = [push(False, False), push(False, True), push(True, False), push(True, True), remove(True), remove(False),
      next_job("get_next_job", lambda J, s, j: J.get(s, "disabled", j) != 0),
      Contract("accessors", small, SRC, ["Trick::ScheduledJobQueue::" + x for x in ("get_curr_index", "reset_curr_index", "set_curr_index", "size", "empty", "top", "clear", "set_next_job_call_time", "ScheduledJobQueue")]),
      Contract("execute_all_jobs", execute_all, SRC, ["Trick::ScheduledJobQueue::execute_all_jobs"]),
      job_call("call"), job_call("call_double"),
      Contract("insertion point exists", lemma, [], [])]
CHECK = Check("C01", CS, Native("native/jobq.cpp", SRC, flags=("-DWANT=1",)))
