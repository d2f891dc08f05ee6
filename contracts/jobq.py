"""Shared by C01 and C02: the job queue and its jobs as mathematical objects."""
from drv import *
import re
SQ = "trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp"
JD = "trick_source/sim_services/SimObject/JobData.cpp"
CQ, CJ = "Trick::ScheduledJobQueue", "Trick::JobData"
MAXLL = 9223372036854775807


def vfun(ex, cls, slot):
    """name of the function in a class's virtual table"""
    nm = "_ZTVN" + "".join("%d%s" % (len(p), p) for p in cls.split("::")) + "E"
    for m in ex.modules:
        g = m.globals.get(nm)
        if g and "ptr @" in g:
            fs = re.findall(r"ptr (?:@([\w.$]+)|null)", g)
            return fs[2 + slot]
    raise Unsupported("virtual table of %s" % cls)


def job_virtual(ex, st, cal, args, x):
    return vfun(ex, CJ, cal.slot[1] if isinstance(cal.slot, tuple) else cal.slot)


def meth(ex, sig):
    r = ex.find_demangled(re.escape(sig) + ".*")
    if len(r) != 1: raise Unsupported("%d functions match %s" % (len(r), sig))
    return ex.find_fn(r[0])


class Jobs:
    """job fields as functions of the job's address, in the heap of a state"""
    KIND = dict(disabled="i8", handled="i8", complete="i8", job_class="i32", system_job_class="i32", phase="i16", id="i32", sim_object_id="i32", cycle_tics="i64", start_tics="i64", stop_tics="i64",
                next_tics="i64", cycle="double", start="double", stop="double", thread="i32")

    def __init__(self, ex): self.ex = ex

    def arr(self, st, f):
        return self.ex.heap_arr(st, ("F", "class." + CJ, self.ex.foff(CJ, f)), self.KIND[f])

    def get(self, st, f, a):
        return self.arr(st, f).get(a)

    def u16(self, v): return z3.If(v < 0, v + 65536, v)

    def key(self, st, a):
        return [self.get(st, "job_class", a), self.u16(self.get(st, "phase", a)), self.get(st, "sim_object_id", a), self.get(st, "id", a)]

    def ranges(self, st, a):
        """what the types of the fields say"""
        r = []
        for f, k in self.KIND.items():
            if k[0] != "i": continue
            n = int(k[1:]); v = self.get(st, f, a)
            r.append(And(v >= -2 ** (n - 1), v < 2 ** (n - 1)))
        r += [And(self.get(st, f, a) >= 0, self.get(st, f, a) <= 1) for f in ("disabled", "handled", "complete")]
        return And(*r)


def lex(x, y):
    """x < y, lexicographically"""
    r = x[-1] < y[-1]
    for a, b in reversed(list(zip(x[:-1], y[:-1]))): r = Or(a < b, And(a == b, r))
    return r


class Q:
    """a queue holding an arbitrary number n of jobs"""

    def __init__(self, ex, st, nmax=2 ** 31 - 2, typed=True):
        self.ex = ex
        self.q = ex.struct_obj(None, CQ, "queue")
        self.n = z3.Int("n"); self.curr = z3.Int("curr")
        st.add(And(self.n >= 0, self.n <= nmax, self.curr >= 0, self.curr <= self.n))
        self.lo = ex.new_obj("list", 8 * self.n, None, "heap")
        self.lo.elem = "ptr"
        self.lo.regions.append(Region(0, 8, self.n))
        self.region = self.lo.regions[0]
        self.L = ex.arr_get(st, self.lo, self.region, 0, "ptr")
        self.t0 = z3.Int("next_job_time")
        st.add(And(self.t0 >= -2 ** 63, self.t0 <= MAXLL))
        ex.setf(st, self.q, "list_size", self.n, "i32")
        ex.setf(st, self.q, "list", Ptr(self.lo), "ptr")
        ex.setf(st, self.q, "curr_index", self.curr, "i32")
        ex.setf(st, self.q, "next_job_time", self.t0, "i64")
        self.jobs = Jobs(ex)
        i = z3.Int("_i")
        self.ri = i
        st.addq(z3.ForAll([i], And(self.L.get(i) > 0, self.jobs.ranges(st, self.L.get(i))), patterns=[self.L.get(i)]))

    def this(self): return Ptr(self.q)

    def size(self, st): return self.ex.getf(st, self.q, "list_size", "i32")

    def cur(self, st): return self.ex.getf(st, self.q, "curr_index", "i32")

    def njt(self, st): return self.ex.getf(st, self.q, "next_job_time", "i64")

    def list(self, st): return self.ex.getf(st, self.q, "list", "ptr")

    def elem(self, st, i):
        """job at position i of the queue in state st"""
        ex = self.ex
        p = self.list(st)
        if not isinstance(p, Ptr): p = ex.dec(p)
        if isinstance(p.obj, SymObj): p = ex.resolve(st, p)
        o = p.obj
        if not isinstance(o, Obj) or p.c or p.terms: raise Unsupported("the queue's list is not a block")
        if not o.regions and o.size is not None and isz(o.size) and z3.is_int_value(z3.simplify(o.size)): o.size = z3.simplify(o.size).as_long()
        if not o.regions and o.size is not None and not isz(o.size):
            r = z3.IntVal(-1)
            for k in range(0, o.size, 8): r = z3.If(i == k // 8, zint(ex.addr(ex.load_cell(st, o, k, "ptr", 8, "spec"))), r)
            return r
        ex.ensure_region(st, o, Ptr(o, 0, [(8, z3.Int("_"))]), 8, "ptr")
        return ex.arr_get(st, o, o.regions[0], 0, "ptr").get(i)

    def block(self, st):
        p = self.list(st)
        return p.obj if isinstance(p, Ptr) else None

    def same_jobs(self, ex, st, except_=()):
        """every field of every job keeps its value"""
        a = z3.Int("_a")
        for key, base in list(ex._heapbase.items()):
            if key[0] != "F" or key[1] != "class." + CJ: continue
            now = st.heap.get(key, base)
            if now is base: continue
            fn = [f for f in Jobs.KIND if ex.foff(CJ, f) == key[2]]
            if fn and fn[0] in except_: continue
            ex.prove(st, now.get(a) == base.get(a), "no job's %s changes" % (fn[0] if fn else "field at offset %d" % key[2]), "frame", assume=False)


def sorted_queue(Qx, st):
    """the queue is ordered by (class, phase, sim object, id)"""
    i, j = z3.Int("_si"), z3.Int("_sj")
    L, J = Qx.L, Qx.jobs
    return z3.ForAll([i, j], z3.Implies(And(0 <= i, i < j, j < Qx.n), Not(lex(J.key(st, L.get(j)), J.key(st, L.get(i))))), patterns=[z3.MultiPattern(L.get(i), L.get(j))])
