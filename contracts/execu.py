"""The executive and its threads as mathematical objects (C03, C04, C05)."""
from jobq import *
import models
ED = "trick_source/sim_services/Executive/"
EX, TH = "Trick::Executive", "Trick::Threads"
SCHED, ASYNC, AMF = 0, 1, 2


class Executive:
    """an executive with m >= 1 threads"""
    TK = dict(enabled="i8", curr_time_tics="i64", amf_cycle="double", amf_cycle_tics="i64", amf_next_tics="i64", process_type="i32", child_complete="i8", thread_id="i32")
    EK = dict(time_tics="i64", time_last_pass_tics="i64", next_frame_check_tics="i64", software_frame_tics="i64", terminate_time="i64", frame_count="i64", exec_command="i32", rt_nap="i8",
              time_tic_value="i32", old_time_tic_value="i32", freeze_frame_tics="i64", freeze_time_tics="i64", next_freeze_frame_check_tics="i64", job_call_time_tics="i64", software_frame="double", freeze_frame="double", mode="i32",
              freeze_frame_count="i64", async_freeze_command="i8", freeze_command="i8", freeze_on_frame_boundary="i8", restart_called="i8")

    ENUM = dict(exec_command=(0, 2, 3, 10), mode=(0, 1, 4, 5, 6))

    def __init__(self, ex, st, big=2 ** 61, ranges=True):
        self.ex = ex
        self.o = ex.struct_obj(None, EX, "exec")
        prev = ex.virt.get("resolve")

        def res(ex, st, cal, args, x):
            a = args[0] if isinstance(args[0], Ptr) else ex.dec(args[0])
            if a.obj is self.o: return vfun(ex, EX, cal.slot[1] if isinstance(cal.slot, tuple) else cal.slot)
            return prev(ex, st, cal, args, x)
        ex.virt["resolve"] = res
        ex.handlers["nanosleep"] = lambda ex, st, a, x: 0
        self.m = z3.Int("m")
        st.add(And(self.m >= 1, self.m < 2 ** 31))
        self.tb = ex.new_obj("threads", 8 * self.m, None, "heap"); self.tb.elem = "ptr"
        self.tb.regions.append(Region(0, 8, self.m))
        self.T = ex.arr_get(st, self.tb, self.tb.regions[0], 0, "ptr")
        off = ex.foff(EX, "threads")
        c = st.cells(self.o, True)
        c[off] = (8, "ptr", Ptr(self.tb)); c[off + 8] = (8, "ptr", Ptr(self.tb, 0, [(8, self.m)]))
        self.v0 = {}
        for f, k in self.EK.items():
            if k[0] != "i": continue
            n = int(k[1:]); v = z3.Int(f); self.v0[f] = v
            st.add(And(v >= -2 ** (n - 1), v < 2 ** (n - 1)) if k != "i8" else And(v >= 0, v <= 1))
            if ranges and f.endswith("_tics"): st.add(And(v >= -big, v <= big))
            if f in self.ENUM: st.add(Or(*[v == y for y in self.ENUM[f]]))
            ex.setf(st, self.o, f, v, k)
        self.jq = ex.foff(TH, "job_queue")
        i, j = z3.Int("_ti"), z3.Int("_tj")
        fs = []
        for f, k in self.TK.items():
            if k[0] != "i": continue
            n = int(k[1:]); v = self.th(st, f, self.T.get(i))
            fs.append(And(v >= 0, v <= 1) if k == "i8" else And(v >= -2 ** (n - 1), v < 2 ** (n - 1)))
            if f == "process_type": fs.append(And(v >= 0, v <= 2))
        st.addq(z3.ForAll([i], And(self.T.get(i) > 0, *fs), patterns=[self.T.get(i)]))
        self.pos = z3.Function("thread_index", z3.IntSort(), z3.IntSort())
        st.addq(z3.ForAll([i], z3.Implies(And(0 <= i, i < self.m), self.pos(self.T.get(i)) == i), patterns=[self.T.get(i)]))     # the threads are distinct
        st.add(self.T.get(z3.IntVal(0)) > 0); st.add(self.pos(self.T.get(z3.IntVal(0))) == 0)

    def this(self): return Ptr(self.o)

    def tharr(self, st, f): return self.ex.heap_arr(st, ("F", "class." + TH, self.ex.foff(TH, f)), self.TK[f])

    def th(self, st, f, a): return self.tharr(st, f).get(a)

    def get(self, st, f): return zint(self.ex.getf(st, self.o, f, self.EK[f]))

    def queue(self, a): return a + self.jq

    def embedded(self, name): return self.ex.addr(Ptr(self.o, self.ex.foff(EX, name)))

    def base(self):
        """state with the initial heap"""
        return State()

    def frame(self, s, s0, changed=(), thchanged=()):
        """every other field of the executive and of the threads keeps its value"""
        ex = self.ex
        for f, k in self.EK.items():
            if f in changed: continue
            ex.prove(s, Eq(ex.getf(s, self.o, f, k), ex.getf(s0, self.o, f, k)), "%s does not change" % f, "frame", assume=False)
        a = z3.Int("_a")
        for f in self.TK:
            if f in thchanged: continue
            ex.prove(s, self.th(s, f, a) == self.th(s0, f, a), "no thread's %s changes" % f, "frame", assume=False)


class GA:
    """ghost array"""
    def __init__(self, a): self.a = a

    def get(self, i): return self.a.get(i)

    def set(self, i, v): return GA(ArrStore(self.a, i, v))

    @staticmethod
    def havoc(ex, st): return GA(Arr(ex.fresh_name("ghost"), z3.IntSort(), z3.IntSort()))


def rely(ex, st, p, t, v):
    """another thread may meanwhile have finished its work (child_complete: false -> true), nothing else"""
    w = z3.Int(ex.fresh_name("meanwhile"))
    st.add(And(w >= zint(v), w <= 1))
    ex.store(st, p, t, w, "rely")
    return w


def FA(vs, body, patterns=()):
    """quantified formula; patterns that cannot serve as such are left to the solver"""
    def ok(p):
        if z3.is_quantifier(p) or (z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ITE): return False
        return all(ok(c) for c in p.children())
    pats = [p for p in patterns if z3.is_app(p) and p.num_args() and p.decl().kind() == z3.Z3_OP_UNINTERPRETED or z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SELECT]
    pats = [p for p in pats if ok(p)]
    return z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)
