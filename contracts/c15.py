"""C15: samples go through the recording buffer to the writer once, in order and on schedule."""
from objs import *
from execu import FA, GA
import models
DR = "trick_source/sim_services/DataRecord/DataRecordGroup.cpp"
SRC = [DR]
C, CB = "Trick::DataRecordGroup", "Trick::DataRecordBuffer"
F = dict(record="i8", inited="i8", freq="i32", max_num="i32", buffer_num="i32", writer_num="i32", max_file_size="i64", total_bytes_written="i64", max_size_warning="i8", buffer_type="i32", curr_time="double")
ALWAYS, CHANGES, STEP = 0, 1, 2
NOBUF, RING = 1, 2
BIG = 2 ** 60
I_ = z3.IntSort()
Z = lambda x: z3.IntVal(x)


def P(ex, s, g, t, kind="post"): ex.prove(s, g if not isinstance(g, bool) else z3.BoolVal(g), t, kind, assume=False)


def vec(ex, st, o, off, n, name, stride=8, elem="ptr"):
    """a std::vector of n elements"""
    b = ex.new_obj(name, stride * n, None, "heap"); b.elem = elem; b.regions.append(Region(0, stride, n))
    c = st.cells(o, True); c[off] = (8, "ptr", Ptr(b)); c[off + 8] = (8, "ptr", Ptr(b, 0, [(stride, n)])); c[off + 16] = (8, "ptr", Ptr(b, 0, [(stride, n)]))
    return b


def mk(ctx, **kw):
    ex = ctx.exec(mode="int", fmode="real", **kw); st = State(); st.ghost["calls"] = Rec()
    D = Thing(ex, st, C, F, unsigned=("max_num", "buffer_num", "writer_num")); v = D.v0
    st.add(And(v["max_num"] >= 1, v["writer_num"] >= 0, v["writer_num"] <= v["buffer_num"], v["buffer_num"] < 2 ** 31 - 2, v["total_bytes_written"] >= 0, v["total_bytes_written"] < BIG, v["max_file_size"] >= 0))
    st.add(Or(*[v["freq"] == k for k in (0, 1, 2)])); st.add(Or(*[v["buffer_type"] == k for k in (0, 1, 2)]))
    return ex, st, D


def writing(ctx):
    """write_data hands the writer every sample that is still in the buffer, oldest first"""
    ex, st, D = mk(ctx); v = D.v0; B, W, M = v["buffer_num"], v["writer_num"], v["max_num"]
    first = z3.If(B - W > M, B - M, W); must = z3.Int("must_write"); st.add(And(must >= 0, must <= 1))
    act = And(v["record"] != 0, v["inited"] != 0, Or(v["buffer_type"] == NOBUF, must == 1), v["total_bytes_written"] <= v["max_file_size"])
    st.ghost.update(next=G(first), held=G(Z(0)), bytes=G(v["total_bytes_written"]))
    g = lambda s, k: s.ghost[k].v

    def cands(V):
        s = V.st; c = [("next", And(first <= g(s, "next"), g(s, "next") <= B)), ("held", g(s, "held") == 1), ("bytes", And(g(s, "bytes") >= 0, g(s, "bytes") <= BIG + 2 ** 20 * V.k)), ("bytes kept", D.get(s, "total_bytes_written") == g(s, "bytes")),
                       ("writer", D.get(s, "writer_num") == g(s, "next")), ("writer untouched", D.get(s, "writer_num") == W), ("writer at the end", D.get(s, "writer_num") == B), ("buffer", D.get(s, "buffer_num") == B), ("turns", V.k == g(s, "next") - first)]
        for n_, x in V.all_ints():
            x = zint(x); c += [("%s = next" % (n_,), x == g(s, "next")), ("%s = left" % (n_,), x == B - g(s, "next")), ("%s = done" % (n_,), x == g(s, "next") - first), ("%s = slot" % (n_,), x == g(s, "next") % M), ("%s = bytes" % (n_,), x == g(s, "bytes"))]
        return c
    ex.cands_fn = cands; ex.loop_policy = "inv"

    def virt(ex, st, cal, args, x):
        n = vfun(ex, C, cal.slot[1] if isinstance(cal.slot, tuple) else cal.slot) if False else vname_pure(ex, cal)
        if n != "format_specific_write_data": raise Unsupported("virtual call of %s in write_data" % n)
        k = g(st, "next")
        ex.prove(st, And(k < B, g(st, "held") == 1), "a sample is written only while there are samples left, and under the lock", assume=False)
        ex.prove(st, zint(args[1]) == k % M, "the sample written is the oldest that has not been written", assume=False)
        r = ex.fresh("i32", "bytes", st); st.add(And(r >= 0, r < 2 ** 20)); st.ghost["next"] = G(k + 1); st.ghost["bytes"] = G(g(st, "bytes") + r)
        return r
    ex.virt["resolve"] = virt

    def lock(to):
        def h(ex, st, a, x):
            ex.prove(st, g(st, "held") == 1 - to, "the lock is taken and released in turn", assume=False); st.ghost["held"] = G(Z(to)); return 0
        return h
    ex.handlers.update(pthread_mutex_lock=lock(1), pthread_mutex_unlock=lock(0))
    ex.patterns += [(re.compile(r"^std::(basic_ostream|ostream)|^std::operator<<|^std::endl"), lambda ex, st, a, x: a[0])]
    for o in ex.call(st, meth(ex, C + "::write_data("), [D.this(), must == 1]):
        s = o.st
        P(ex, s, Eq(o.val, 0), "success"); P(ex, s, g(s, "held") == 0, "the lock is released")
        P(ex, s, z3.Implies(act, g(s, "next") == B), "every sample in the buffer is written")
        P(ex, s, z3.Implies(Not(act), And(g(s, "next") == first, D.get(s, "writer_num") == W)), "nothing is written otherwise")
        P(ex, s, z3.Implies(act, D.get(s, "writer_num") == B), "the writer has caught up with the recorder")
        P(ex, s, D.get(s, "total_bytes_written") == g(s, "bytes"), "the bytes written are counted")
        D.frame(s, ("writer_num", "total_bytes_written", "max_size_warning"))
        if ex.known(s, B > first): ctx.cover(ex, with_(s, act), "samples written")
        ctx.cover_some(ex, [with_(s, And(act, B - W > M))], "samples lost to a full ring") if ex.feasible(s, And(act, B - W > M)) else None


def with_(s, c):
    t = s.fork(); t.add(c); return t


def same_arr(a, b): return a is b or a.get(z3.Int('_sa')).eq(b.get(z3.Int('_sa')))


def vname_pure(ex, cal):
    """the method behind a slot of the abstract class, from the table of the class itself or, for pure slots, by its position in the declaration"""
    slot = cal.slot[1] if isinstance(cal.slot, tuple) else cal.slot
    n = vfun(ex, C, slot)
    if n != "__cxa_pure_virtual": return re.sub(r"\(.*", "", ex.demangle(n)).split("::")[-1]
    pure = [i for i in range(60) if safe(ex, i) == "__cxa_pure_virtual"]
    return ("format_specific_header", "format_specific_init", "format_specific_write_data", "format_specific_shutdown")[pure.index(slot)]


def safe(ex, i):
    try: return vfun(ex, C, i)
    except IndexError: return None


# ------------------------------------------------------------------ the schedule
class Rates:
    """the vector of recording cycles: length of each in tics, and its next time"""

    def __init__(self, ex, st, D):
        self.ex, self.m = ex, z3.Int("cycles"); st.add(And(self.m >= 0, self.m < 2 ** 31))
        self.b = vec(ex, st, D.o, ex.foff(C, "logging_rates"), self.m, "logging_rates", 24, None)
        self.R = ex.arr_get(st, self.b, self.b.regions[0], ex.foff("Trick::LoggingCycle", "rate_in_tics"), "i64")
        self.N0 = self.next(st); c = z3.Int("_rc"); self.cong = z3.Function("a_whole_number_of_cycles_on", I_, I_, z3.BoolSort())
        st.addq(FA([c], And(self.R.get(c) >= 1, self.R.get(c) <= 2 ** 40, self.N0.get(c) >= -BIG, self.N0.get(c) <= BIG, self.cong(c, self.N0.get(c))), [self.N0.get(c)]))
        st.addq(FA([c], And(self.R.get(c) >= 1, self.R.get(c) <= 2 ** 40), [self.R.get(c)]))

    def next(self, st): return self.ex.arr_get(st, self.b, self.b.regions[0], self.ex.foff("Trick::LoggingCycle", "next_cycle_in_tics"), "i64")

    def key(self): return (self.b.id, self.b.regions[0].start, self.b.regions[0].stride, self.ex.foff("Trick::LoggingCycle", "next_cycle_in_tics"))

    def one(self, N, c, now): return And(N.get(c) > now, Or(N.get(c) == self.N0.get(c), N.get(c) - self.R.get(c) <= now), N.get(c) >= self.N0.get(c), self.cong(c, N.get(c)))

    def some(self, N, c, now): return And(Or(N.get(c) == self.N0.get(c), N.get(c) - self.R.get(c) <= now), N.get(c) >= self.N0.get(c), self.cong(c, N.get(c)))

    def step(self, st, N, c):
        """whole numbers of cycles: one more"""
        st.add(z3.Implies(self.cong(c, N.get(c)), self.cong(c, N.get(c) + self.R.get(c)))); st.add(And(self.R.get(c) >= 1, self.R.get(c) <= 2 ** 40))

    def nx(self, N, c, lim): return z3.If(N.get(c) == lim, N.get(c) + self.R.get(c), N.get(c))

    def earliest(self, N, r, lim, v):
        c = z3.Int("_ec")
        return FA([c], z3.Implies(And(0 <= c, c < v), r <= self.nx(N, c, lim)), [N.get(c)])

    def attained(self, N, r, lim, v):
        c = z3.Int("_ac"); return Or(And(r == MAXLL), z3.Exists([c], And(0 <= c, c < v, r == self.nx(N, c, lim))))

    def cands(self, V, now, lim):
        s = V.st; N = self.next(s); c = z3.Int("_cc"); r = []
        vs = [(n, zint(x)) for n, x in V.all_pos()]
        env = []
        for n, x in V.env.items():
            if isinstance(x, Ptr) and isinstance(x.obj, Obj) and x.obj is self.b:
                i = models.index_in(self.ex, self.b.regions[0], x)
                if i is not None: env.append((n, zint(i)))
            elif isz(x) and z3.is_int(x) and z3.is_const(x) and not z3.is_int_value(x): env.append((n, x))
        seen = set(); us = []
        for n, x in vs + env:
            if x.get_id() not in seen: seen.add(x.get_id()); us.append((n, x))
        for n, x in vs: r += [("%s >= 0" % (n,), x >= 0), ("%s <= cycles" % (n,), x <= self.m)]
        for n, x in us:
            if x.sort() != I_: continue
            self.step(s, N, x)
            r += [("cycles before %s are advanced" % (n,), FA([c], z3.Implies(And(0 <= c, c < x), self.one(N, c, now)), [N.get(c)])), ("cycles from %s on are not" % (n,), FA([c], z3.Implies(c >= x, N.get(c) == self.N0.get(c)), [N.get(c)])),
                  ("cycles after %s are not" % (n,), FA([c], z3.Implies(c > x, N.get(c) == self.N0.get(c)), [N.get(c)])), ("cycle %s is being advanced" % (n,), self.some(N, x, now))]
            for n2, y in vs:
                if y is x: continue
                r += [("%s is the earliest before %s" % (n2, n), self.earliest(N, y, lim, x)), ("%s is one of those before %s" % (n2, n), self.attained(N, y, lim, x))]
        for n, x in vs:
            for i in [z for _, z in us if z is not x][:6]: r += [("%s is the next of %s" % (n, i), And(x == N.get(i)))]
        return r


def advancing(ctx):
    ex, st, D = mk(ctx); R = Rates(ex, st, D); now = z3.Int("now"); st.add(And(now > -BIG, now < BIG))
    ex.cands_fn = lambda V: R.cands(V, now, now); ex.loop_policy = "inv"
    for o in ex.call(st, meth(ex, C + "::advance_log_tics_given_curr_tic("), [D.this(), now]):
        s = o.st; c = z3.Int("cycle"); N = R.next(s); i = And(0 <= c, c < R.m); s.add(R.cong(c, R.N0.get(c)))
        P(ex, s, z3.Implies(i, N.get(c) > now), "the next time of every cycle lies ahead")
        P(ex, s, z3.Implies(i, Or(N.get(c) == R.N0.get(c), N.get(c) - R.R.get(c) <= now)), "no time of a cycle is skipped")
        P(ex, s, z3.Implies(i, And(N.get(c) >= R.N0.get(c), R.cong(c, N.get(c)))), "a cycle advances by whole cycles")
        D.frame(s); ctx.cover(ex, s, "return")


def choosing(ctx):
    ex, st, D = mk(ctx); R = Rates(ex, st, D); lim = z3.Int("min_tic"); st.add(And(lim > -BIG, lim < BIG))
    ex.cands_fn = lambda V: R.cands(V, lim, lim); ex.loop_policy = "inv"
    for o in ex.call(st, meth(ex, C + "::calculate_next_logging_tic("), [D.this(), lim]):
        s = o.st; r = zint(o.val); N = R.next(s); c = z3.Int("cycle")
        P(ex, s, z3.Implies(And(0 <= c, c < R.m), r <= R.nx(R.N0, c, lim)), "no cycle has an earlier time")
        P(ex, s, R.attained(R.N0, r, lim, R.m), "it is the time of one of the cycles")
        P(ex, s, z3.Implies(And(0 <= c, c < R.m), N.get(c) == R.N0.get(c)), "the cycles stay as they are", "frame")
        D.frame(s); ctx.cover(ex, s, "return")


# ------------------------------------------------------------------ recording
RB, AT = "REF2", "ATTRIBUTES"
SIZES = (8, 4, 2, 1)


def fn(name, *sorts): return z3.Function(name, *(list(sorts) or [I_, I_]))


class Recorder:
    """n recorded variables and some watched ones.  own(x): which block the address x belongs to (the blocks are separate allocations); ADR(i, p) = buffer_i + p * size_i: slot p of the buffer of variable i"""

    def __init__(self, ex, st, D):
        self.ex, self.D = ex, D; v = D.v0
        self.n, self.w = z3.Ints("variables watched"); st.add(And(self.n >= 1, self.n < 2 ** 31, self.w >= 0, self.w < 2 ** 31))
        M, B = v["max_num"], v["buffer_num"]; self.M, self.B = M, B
        self.own, self.slot, self.pos, self.wpos, self.SZ, self.STL, self.PATH = fn("block"), fn("slot"), fn("position"), fn("watch_position"), fn("size"), fn("is_stl", I_, z3.BoolSort()), fn("followed_path")
        self.ADR = fn("ADR", I_, I_, I_)
        self.heapkeys = {}
        rb = vec(ex, st, D.o, ex.foff(C, "rec_buffer"), self.n, "rec_buffer"); cb = vec(ex, st, D.o, ex.foff(C, "change_buffer"), self.w, "change_buffer")
        self.L = ex.arr_get(st, rb, rb.regions[0], 0, "ptr"); self.K = ex.arr_get(st, cb, cb.regions[0], 0, "ptr")
        self.s0 = st.fork()
        for f in ("buffer", "curr_buffer", "last_value", "ref"): self.f(self.s0, f)
        for f in ("address", "pointer_present", "attr"): self.r(self.s0, f)
        self.asize(self.s0)
        for s in SIZES + (0,): self.raw(self.s0, s)
        st.heap.update(self.s0.heap); s0 = self.s0
        # the slots of the sample before, of this one, and of the one after
        self.P0, self.P1, self.P2 = (B - 1) % M, B % M, (B + 1) % M
        lem = And(self.P1 >= 0, self.P1 < M, self.P2 >= 0, self.P2 < M, z3.Implies(B > 0, self.P0 == z3.If(self.P1 == 0, M - 1, self.P1 - 1)), self.P2 == z3.If(self.P1 + 1 == M, 0, self.P1 + 1))
        self.lemma = lem
        st.add(lem)
        i, p = z3.Ints("_vi _vp"); l = self.L.get(i); inr = And(0 <= i, i < self.n)
        buf, last, ref = self.f(s0, "buffer").get(l), self.f(s0, "last_value").get(l), self.f(s0, "ref").get(l)
        st.addq(FA([i], z3.Implies(inr, And(l > 0, self.pos(l) == i, self.wpos(l) == -1, buf > 0, last > 0, ref > 0, self.own(last) == 2 * i + 1, self.own(self.r(s0, "address").get(ref)) == -1, self.own(self.PATH(ref)) == -1,
                                            self.ADR(i, 0) == buf, *[self.ADR(i, q + 1) == self.ADR(i, q) + self.SZ(ref) for q in (self.P0, self.P1, self.P2)], self.SZ(ref) >= 1, self.SZ(ref) < 2 ** 20)), [l]))
        st.addq(FA([i, p], z3.Implies(And(inr, 0 <= p, p < M), And(self.own(self.ADR(i, p)) == 2 * i, self.slot(self.ADR(i, p)) == p, self.ADR(i, p) > 0)), [self.ADR(i, p)]))
        st.addq(FA([i], z3.Implies(And(inr, B > 0), self.f(s0, "curr_buffer").get(l) == self.ADR(i, self.P0)), [l]))
        k = self.K.get(i); kref, kbuf = self.f(s0, "ref").get(k), self.f(s0, "buffer").get(k); kin = And(0 <= i, i < self.w)
        st.addq(FA([i], z3.Implies(kin, And(k > 0, self.wpos(k) == i, self.pos(k) == -1, kref > 0, kbuf > 0, self.own(kbuf) == -2 - i, self.own(self.r(s0, "address").get(kref)) == -1, self.own(self.PATH(kref)) == -1, self.r(s0, "attr").get(kref) > 0,
                                           self.asize(s0).get(self.r(s0, "attr").get(kref)) >= 1)), [k]))
        l0 = self.L.get(Z(0)); self.l0 = l0
        st.add(And(l0 > 0, self.SZ(self.f(s0, "ref").get(l0)) == 8))
        # the word a real number is kept as
        self.bits, self.real = z3.Function("bits", z3.RealSort(), I_), z3.Function("number", I_, z3.RealSort())

        def tobits(s, x): s.add(And(self.real(self.bits(rv(x))) == rv(x), self.bits(rv(x)) >= -2 ** 63, self.bits(rv(x)) < 2 ** 63)); return self.bits(rv(x))
        ex.raw_pun = (tobits, lambda s, x: self.real(zint(x)))
        ex.raw_copy = self.copy
        ex.handlers["memcpy"] = ex.handlers["memmove"] = lambda ex, s, a, x: (self.copy(ex, s, a, x), a[0])[1]
        ex.handlers["memcmp"] = self.compare
        ex.handlers["follow_address_path"] = lambda ex, s, a, x: ex.dec(self.PATH(zint(ex.addr(a[0]))))
        ex.patterns += [(re.compile(r"^(Trick::)?follow_address_path\("), ex.handlers["follow_address_path"]), (re.compile(r"^Trick::ReferenceUtils::is_stl_ref\("), lambda ex, s, a, x: self.STL(zint(ex.addr(a[0])))),
                        (re.compile(r"^Trick::ReferenceUtils::effective_trick_size\("), lambda ex, s, a, x: self.SZ(zint(ex.addr(a[0]))))]
        st.ghost["differs"] = G(Z(0))

    def f(self, st, name): return self.ex.heap_arr(st, ("F", "class." + CB, self.ex.foff(CB, name)), "ptr")

    def r(self, st, name): return self.ex.heap_arr(st, ("F", self.tag(RB), self.ex.foff(RB, name)), "i32" if name == "pointer_present" else "ptr")

    def asize(self, st): return self.ex.heap_arr(st, ("F", self.tag(AT), self.ex.foff(AT, "size")), "i32")

    def tag(self, c): return {RB: "struct.REF2", AT: "struct.ATTRIBUTES_tag"}[c]

    def raw(self, st, s): return self.ex.heap_arr(st, ("P", "i%d" % (8 * s) if s else "block"), "i%d" % (8 * s) if s else "i64")

    def content(self, st, x, n):
        """the n bytes at address x"""
        r = self.raw(st, 0).get(x)
        for s in SIZES: r = z3.If(n == s, self.raw(st, s).get(x), r)
        return r

    def copy(self, ex, st, a, x):
        n = zint(a[2]); d, q = zint(ex.addr(a[0])), zint(ex.addr(a[1]))
        for s in SIZES:
            if ex.branch(st, n == s):
                ex.store(st, a[0], ir.T("i", 8 * s), ex.load(st, a[1], ir.T("i", 8 * s))); return None
        key = ("P", "block"); b = self.raw(st, 0); nb = ArrStore(b, d, b.get(q)); nb.kind = "i64"; st.heap[key] = nb; ex.log_write(st, ("heap", key, d))
        return None

    def compare(self, ex, st, a, x):
        n = zint(a[2]); r = ex.fresh("i32", "cmp", st); same_ = self.content(st, zint(ex.addr(a[0])), n) == self.content(st, zint(ex.addr(a[1])), n)
        st.add((r == 0) == same_); st.ghost["differs"] = G(z3.If(r != 0, 1, st.ghost["differs"].v))
        return r


def recording(*a):
    def run(ctx): record(ctx, *a)
    return run


def record(ctx, on_, freq_, ring=None, first=None):
    ex, st, D = mk(ctx, path_limit=20000); v = D.v0
    for f, k in (("record", on_), ("freq", freq_)):
        if k is not None: st.add(v[f] == k); ex.setf(st, D.o, f, k, F[f]); v[f] = Z(k)
    T = Rates(ex, st, D); R = Recorder(ex, st, D); s0 = R.s0; B, W, M, n = R.B, v["writer_num"], R.M, R.n
    st.add(z3.Implies(v["buffer_type"] != RING, B - W <= M))
    if ring is not None: st.add(v["buffer_type"] == RING if ring else v["buffer_type"] != RING)
    if first is not None: st.add(B == 0 if first else B > 0)
    t, now, q = z3.Real("in_time"), z3.Int("now"), z3.Real("in_time_in_tics")
    tv = z3.Int("time_tic_value"); st.add(And(tv >= 1, tv < 2 ** 31, q == t * z3.ToReal(tv), q > -2 ** 58, q < 2 ** 58)); st.add(now == z3.If(q >= 0, z3.ToInt(q + z3.Q(1, 2)), -z3.ToInt(-q + z3.Q(1, 2))))
    ex.canon = [(t * z3.ToReal(tv), q)]
    gv = static(ex, st, "JobData14time_tic_value", tv)
    J = Jobs(ex); wj = z3.Int("write_job"); st.add(And(wj > 0, wj < 2 ** 62)); ex.setf(st, D.o, "write_job", ex.dec(wj), "ptr")
    for f in ("next_tics", "cycle_tics", "cycle"): J.arr(st, f); J.arr(s0, f)
    I, X, S, KI = z3.Ints("variable anywhere other_slot watch"); st.add(And(0 <= I, I < n, R.own(X) == -1, 0 <= S, S < M))
    lI = R.L.get(I); refI = R.f(s0, "ref").get(lI); szI = R.SZ(refI); kK = R.K.get(KI); refK = R.f(s0, "ref").get(kK); bufK = R.f(s0, "buffer").get(kK); szK = R.asize(s0).get(R.r(s0, "attr").get(refK))
    lastI = R.f(s0, "last_value").get(lI); pp = R.r(s0, "pointer_present"); A0 = R.r(s0, "address")
    follow = lambda r: And(pp.get(r) == 1, Not(R.STL(r)))
    ref0 = R.f(s0, "ref").get(R.l0); last0 = R.f(s0, "last_value").get(R.l0)
    st.add(R.pos(R.l0) == 0)
    stepval = z3.If(I == 0, R.bits(t), R.content(s0, lastI, szI))
    st.ghost["flushed"] = G(Z(0))

    def write(ex, s, a, x):
        """what write_data does, from its contract"""
        Wn = D.get(s, "writer_num"); act = And(D.get(s, "record") != 0, D.get(s, "inited") != 0, Or(D.get(s, "buffer_type") == NOBUF, zint(a[1]) != 0 if not isinstance(a[1], bool) else z3.BoolVal(a[1])), D.get(s, "total_bytes_written") <= D.get(s, "max_file_size"))
        b = ex.fresh("i64", "bytes", s); s.add(And(b >= 0, b < BIG, z3.Implies(Not(act), b == D.get(s, "total_bytes_written"))))
        ex.setf(s, D.o, "writer_num", z3.If(act, D.get(s, "buffer_num"), Wn), "i32"); ex.setf(s, D.o, "total_bytes_written", b, "i64"); ex.setf(s, D.o, "max_size_warning", ex.fresh("i8", "warned", s), "i8")
        return 0
    virt_ = ex.virt.get("resolve")

    def virt(ex, s, cal, args, x):
        nm = vname_pure(ex, cal)
        if nm == "write_data": return write(ex, s, args, x)
        return vfun(ex, C, cal.slot[1] if isinstance(cal.slot, tuple) else cal.slot)
    ex.virt["resolve"] = virt
    ex.patterns.append((re.compile(r"^Trick::DataRecordGroup::write_data\("), write))

    def advance(ex, s, a, x):
        k = zint(a[1]); P(ex, s, k == now, "the cycles are advanced past the present time")
        old = T.next(s); N = Arr(ex.fresh_name("next"), I_, I_); N.kind = "i64"; c = z3.Int("_hc"); s.arrs[T.key()] = N
        P(ex, s, z3.BoolVal(old is T.N0 or same_arr(old, T.N0)), "the cycles are advanced once")
        s.addq(FA([c], z3.Implies(And(0 <= c, c < T.m), T.one(N, c, now)), [N.get(c)]))

    def choose(ex, s, a, x):
        k = zint(a[1]); r = ex.fresh("i64", "earliest", s); N = T.next(s)
        s.addq(T.earliest(N, r, k, T.m)); s.add(T.attained(N, r, k, T.m)); return r
    ex.patterns += [(re.compile(r"^Trick::DataRecordGroup::advance_log_tics_given_curr_tic\("), advance), (re.compile(r"^Trick::DataRecordGroup::calculate_next_logging_tic\("), choose)]
    # what differs when a sample is taken
    kin = And(0 <= KI, KI < R.w)

    def cands(V):
        s = V.st; H = V.H; c = []; i = z3.Int("_ci")
        mod = lambda key: not H or ("heap", key) in H
        Ad, Cu = R.r(s, "address"), R.f(s, "curr_buffer"); Bc = D.get(s, "buffer_num"); pc = z3.If(Bc == B, R.P1, R.P2); pm = z3.If(Bc == B, R.P0, R.P1)
        g = s.ghost["differs"].v
        con = lambda x, z: R.content(s, x, z)
        c0 = lambda x, z: R.content(s0, x, z)
        small = {nm: zint(x) for nm, t_, x in V.phis if t_.k == "i" and t_.n == 8}
        for nm, x in small.items(): c += [("%s flag" % (nm,), x == g)]
        for nm, x in V.all_pos():
            if nm in small: continue
            x = zint(x)
            c += [("%s >= 0" % (nm,), x >= 0), ("%s <= variables" % (nm,), x <= n), ("%s <= watched" % (nm,), x <= R.w)]
            l = R.L.get(i)
            for side, bef in (("before", lambda j: And(0 <= j, j < x)),):
                nb = (lambda j, bef=bef: And(0 <= j, j < n, Not(bef(j))))
                c += [("places of the variables %s %s are those of the sample" % (side, nm), FA([i], z3.Implies(bef(i), Cu.get(l) == R.ADR(i, pc)), [l])),
                      ("places of the variables not %s %s are those of the sample before" % (side, nm), FA([i], z3.Implies(And(nb(i), Bc > 0), Cu.get(l) == R.ADR(i, pm)), [l])),
                      ("sample %s %s" % (side, nm), z3.Implies(bef(I), con(R.ADR(I, pc), szI) == c0(Ad.get(refI), szI))), ("followed %s %s" % (side, nm), z3.Implies(And(bef(I), follow(refI)), Ad.get(refI) == R.PATH(refI))),
                      ("last %s %s" % (side, nm), z3.Implies(bef(I), con(lastI, szI) == c0(Ad.get(refI), szI))), ("step %s %s" % (side, nm), z3.Implies(bef(I), con(R.ADR(I, pc), szI) == stepval)),
                      ("last not %s %s" % (side, nm), z3.Implies(nb(I), con(lastI, szI) == c0(lastI, szI))), ("last not %s %s, time" % (side, nm), z3.Implies(nb(I), con(lastI, szI) == stepval))]
            kb = And(0 <= KI, KI < x, kin)
            c += [("watched before %s" % (nm,), z3.Implies(kb, And(con(bufK, szK) == c0(Ad.get(refK), szK), z3.Implies(c0(bufK, szK) != c0(Ad.get(refK), szK), g == 1)))), ("watched from %s" % (nm,), z3.Implies(And(kin, KI >= x), con(bufK, szK) == c0(bufK, szK))),
                  ("followed watch before %s" % (nm,), z3.Implies(And(kb, pp.get(refK) == 1), Ad.get(refK) == R.PATH(refK)))]
        c += [("followed watch", z3.Implies(And(kin, pp.get(refK) == 1), Ad.get(refK) == R.PATH(refK))), ("last is kept", con(lastI, szI) == c0(lastI, szI)), ("last holds the time", con(lastI, szI) == stepval), ("step sample is kept", z3.Implies(S == R.P1, con(R.ADR(I, S), szI) == stepval)), ("step sample stays", z3.Implies(M >= 2, con(R.ADR(I, R.P1), szI) == stepval)),
              ("other slots", z3.Implies(And(S != R.P1, S != R.P2), con(R.ADR(I, S), szI) == c0(R.ADR(I, S), szI))), ("all other slots", z3.Implies(S != pc, con(R.ADR(I, S), szI) == c0(R.ADR(I, S), szI))), ("all slots", con(R.ADR(I, S), szI) == c0(R.ADR(I, S), szI)),
              ("watched", z3.Implies(kin, And(con(bufK, szK) == c0(Ad.get(refK), szK), z3.Implies(c0(bufK, szK) != c0(Ad.get(refK), szK), g == 1)))), ("watched contents", z3.Implies(kin, con(bufK, szK) == c0(Ad.get(refK), szK)))]
        for sz in SIZES + (0,):
            m = mod(("P", "i%d" % (8 * sz) if sz else "block"))
            if m: c.append(("memory elsewhere (%d)" % sz, FA([i], z3.Implies(R.own(i) == -1, R.raw(s, sz).get(i) == R.raw(s0, sz).get(i)), [R.raw(s, sz).get(i)])))
        if mod(("F", R.tag(RB), ex.foff(RB, "address"))):
            c += [("addresses", FA([i], Or(Ad.get(i) == A0.get(i), And(pp.get(i) == 1, Ad.get(i) == R.PATH(i))), [Ad.get(i)]))]
        if mod(("F", "class." + CB, ex.foff(CB, "curr_buffer"))):
            c += [("other places", FA([i], z3.Implies(R.pos(i) < 0, Cu.get(i) == R.f(s0, "curr_buffer").get(i)), [Cu.get(i)]))]
        for b in V.bools: c += [("flag", ite(b, 1, 0) == g)]
        for nm, x in V.cells(("i8",)): c += [("%s flag" % (nm,), zint(x) == g)]
        c += [("differs", And(g >= 0, g <= 1)), ("nothing differs yet", g == 0)]
        return c + (T.cands(V, now, now) if any("log_tics" in V.fn or "logging_tic" in V.fn for _ in (0,)) else [])
    ex.cands_fn = cands; ex.loop_policy = "inv"
    taken, quiet, stepped = [], [], []
    for o in ex.call(st, meth(ex, C + "::data_record("), [D.this(), t]):
        s = o.st; P(ex, s, Eq(o.val, 0), "success")
        g = s.ghost["differs"].v; B2 = D.get(s, "buffer_num"); on = v["record"] != 0
        take = And(on, Or(v["freq"] == ALWAYS, B == 0, g == 1)); step = And(take, v["freq"] == STEP)
        Ad = R.r(s, "address"); con = lambda x, z: R.content(s, x, z); c0 = lambda x, z: R.content(s0, x, z)
        P(ex, s, B2 == z3.If(take, z3.If(step, B + 2, B + 1), B), "one sample is recorded when it is due (two when a step is), none otherwise")
        P(ex, s, z3.Implies(And(on, v["freq"] != ALWAYS, kin, c0(bufK, szK) != c0(Ad.get(refK), szK)), g == 1), "a change of any watched variable is noticed")
        P(ex, s, z3.Implies(And(on, v["freq"] != ALWAYS, kin), con(bufK, szK) == c0(Ad.get(refK), szK)), "the value a watched variable had is remembered")
        pl = z3.If(step, R.P2, R.P1)
        P(ex, s, z3.Implies(take, con(R.ADR(I, pl), szI) == c0(Ad.get(refI), szI)), "the sample holds the value of every variable, in its slot")
        P(ex, s, z3.Implies(And(take, follow(refI)), Ad.get(refI) == R.PATH(refI)), "pointers are followed anew")
        P(ex, s, z3.Implies(pp.get(refI) != 1, Ad.get(refI) == A0.get(refI)), "addresses of variables without pointers stay")
        P(ex, s, z3.Implies(And(step, M >= 2), con(R.ADR(I, R.P1), szI) == stepval), "a step is preceded by the values before it, at the present time")
        P(ex, s, z3.Implies(And(S != pl, z3.Implies(step, S != R.P1)), con(R.ADR(I, S), szI) == c0(R.ADR(I, S), szI)), "the other samples in the buffer stay")
        P(ex, s, z3.Implies(Not(take), con(R.ADR(I, S), szI) == c0(R.ADR(I, S), szI)), "no sample changes when none is recorded")
        P(ex, s, z3.Implies(take, con(lastI, szI) == c0(Ad.get(refI), szI)), "the last value recorded is remembered")
        P(ex, s, z3.Implies(B2 > 0, R.f(s, "curr_buffer").get(lI) == R.ADR(I, z3.If(take, pl, R.P0))), "the place of the newest sample is kept for the next one")
        for z in SIZES + (0,): P(ex, s, R.raw(s, z).get(X) == R.raw(s0, z).get(X), "memory that is not the recorder's does not change", "frame")
        P(ex, s, rv(D.get(s, "curr_time")) == z3.If(take, t, v["curr_time"]), "the sample's time is the time given")
        fl = And(v["inited"] != 0, v["total_bytes_written"] <= v["max_file_size"], v["buffer_type"] != RING, z3.Implies(step, M >= 2))
        P(ex, s, z3.Implies(fl, And(D.get(s, "writer_num") <= B2, B2 - D.get(s, "writer_num") <= M)), "no sample is overwritten before it is written, except in ring buffers")
        P(ex, s, Or(D.get(s, "writer_num") == W, D.get(s, "writer_num") == B), "nothing recorded counts as written")
        nt = J.get(s, "next_tics", wj); c = z3.Int("cycle"); N = T.next(s); ci = And(0 <= c, c < T.m)
        P(ex, s, z3.Implies(ci, And(N.get(c) > now, nt <= N.get(c))), "the next recording is no later than any cycle's next time")
        P(ex, s, Or(nt == MAXLL, z3.Exists([c], And(ci, nt == N.get(c)))), "the next recording is at a cycle's next time")
        s.add(T.cong(c, T.N0.get(c)))
        P(ex, s, z3.Implies(ci, T.one(N, c, now)), "cycles advance by whole cycles to the first time ahead")
        P(ex, s, J.get(s, "cycle_tics", wj) == nt - now, "the job's cycle is the time until then")
        P(ex, s, rv(J.get(s, "cycle", wj)) * z3.ToReal(tv) == z3.ToReal(nt - now), "in seconds too")
        a = z3.Int("a")
        for f in ("next_tics", "cycle_tics", "cycle"): P(ex, s, z3.Implies(a != wj, J.get(s, f, a) == J.get(s0, f, a)), "no other job's %s changes" % f, "frame")
        D.frame(s, ("buffer_num", "writer_num", "curr_time", "total_bytes_written", "max_size_warning"))
        taken.append(with_(s, And(take, Not(step)))); quiet.append(with_(s, And(on, Not(take)))); stepped.append(with_(s, step))
    for l, nm, ok in ((taken, "sample", on_ and freq_ != STEP), (quiet, "no change", on_ and freq_ != ALWAYS and not first), (stepped, "step", on_ and freq_ == STEP)):
        if ok: ctx.cover_some(ex, l, nm)


def static(ex, st, suffix, val):
    """a class's static data member"""
    for m in ex.modules:
        for nme in m.globals:
            if nme.endswith(suffix + "E"):
                o = ex.global_obj(nme, m); st.cells(o, True)[0] = (8, "i64", val); return o
    raise Unsupported("static member " + suffix)


def positions(ctx):
    """the arithmetic of slots used above: B % M follows from B = q M + r with 0 <= r < M, and the slots next to it"""
    ex = ctx.exec(mode="int", fmode="real"); B, M, q, r, d = z3.Ints("B M q r d"); q1, q0 = z3.Ints("quotient_after quotient_before")
    st = State(); st.add(And(M >= 1, r >= 0, r < M, q0 >= 0, q0 < M)); st.add(d * M == q0 - r)
    ex.prove(st, z3.Implies(d >= 1, (d - 1) * M >= 0), "a positive multiple is at least one", "lemma"); ex.prove(st, z3.Implies(d <= -1, (-d - 1) * M >= 0), "a negative multiple is at most minus one", "lemma")
    ex.prove(st, And(d == 0, q0 == r), "quotient and remainder are unique", "lemma")
    # with that, x % M = r' whenever x = q' M + r' and 0 <= r' < M; the decomposition of B and its neighbours:
    st = State(); st.add(And(M >= 1, B >= 0, r >= 0, r < M, B == q * M + r))
    n, p = z3.If(r + 1 == M, 0, r + 1), z3.If(r == 0, M - 1, r - 1)
    ex.prove(st, And(n >= 0, n < M, B + 1 == z3.If(r + 1 == M, q + 1, q) * M + n), "the slot after", "lemma")
    ex.prove(st, And(p >= 0, p < M, B - 1 == z3.If(r == 0, q - 1, q) * M + p), "the slot before", "lemma")
    ctx.cover(ex, st, "lemma")


def rate(ctx):
    """a cycle that is set is next due at its first multiple from the present time on"""
    ex = ctx.exec(mode="int", fmode="real"); st = State(); LC = "Trick::LoggingCycle"
    o = ex.new_obj("cycle", 24, None, "obj"); st.cells(o, True)
    tv, now = z3.Ints("time_tic_value time_tics"); r = z3.Real("rate"); q = r * z3.ToReal(tv)
    st.add(And(tv >= 1, tv < 2 ** 31, now >= 0, now < BIG, r > 0, q >= z3.Q(1, 2), q < 2 ** 58)); static(ex, st, "JobData14time_tic_value", tv)
    ex.handlers["exec_get_time_tics"] = lambda ex, st, a, x: now
    for o_ in ex.call(st, meth(ex, LC + "::set_rate("), [Ptr(o), r]):
        s = o_.st; g = lambda f, t: ex.getf(s, o, f, t, LC); k, n = zint(g("rate_in_tics", "i64")), zint(g("next_cycle_in_tics", "i64"))
        P(ex, s, And(z3.ToReal(k) - q <= z3.Q(1, 2), q - z3.ToReal(k) <= z3.Q(1, 2)), "the cycle is the rate in tics, rounded to the nearest"); P(ex, s, rv(g("rate_in_seconds", "double")) == r, "the rate is kept")
        P(ex, s, k >= 1, "a cycle is at least one tic")
        e = z3.Int("quotient"); m = z3.Int("remainder"); s.add(And(now == e * k + m, m >= 0, m < k)); s.add(And(e == now / k, m == now % k))
        P(ex, s, n == z3.If(m == 0, e * k, (e + 1) * k), "next due at its first multiple from the present time on"); ctx.cover(ex, s, "return")


VARIANTS = [("disabled", (0, None))] + [("%s, %s%s" % (nm, "ring" if r else "buffer", "" if b is None else ", first" if b else ", later"), (1, k, r, b))
                                        for k, nm, bs in ((STEP, "steps", (False, True)), (CHANGES, "changes only", (False, True)), (ALWAYS, "every sample", (None,))) for b in bs for r in (False, True)]
CS = [Contract("slots", positions, SRC, []), Contract("write_data", writing, SRC, [C + "::write_data"]), Contract("advance_log_tics_given_curr_tic", advancing, SRC, [C + "::advance_log_tics_given_curr_tic"]), Contract("calculate_next_logging_tic", choosing, SRC, [C + "::calculate_next_logging_tic"]),
      Contract("LoggingCycle::set_rate", rate, SRC, ["Trick::LoggingCycle::set_rate"]), *[Contract("data_record, " + nm, recording(*k), SRC, [C + "::data_record"], timeout=600) for nm, k in VARIANTS]]
NAT = SRC + ["trick_source/sim_services/SimObject/SimObject.cpp", "trick_source/sim_services/SimObject/JobData.cpp", "trick_source/sim_services/MemoryManager/ReferenceUtils.cpp"]
CHECK = Check("C15", CS, Native("native/c15.cpp", NAT), trusted=[
    "ReferenceUtils::effective_trick_size, is_stl_ref and follow_address_path depend on the reference only, and change nothing but what they return",
    "the buffers, last values and watched values are separate allocations of max_num samples (or one) each, and no recorded or watched variable lies inside them (DataRecordGroup::init allocates them)",
    "the first recorded variable is the time, of 8 bytes (the constructor puts it there)",
    "fewer than 2^31 samples, variables, watched variables and cycles; cycles between 1 and 2^40 tics",
    "pthread_mutex_lock/unlock are mutual exclusion between writers; recording and writing on two threads at once is not decided beyond that",
    "data_record uses write_data, advance_log_tics_given_curr_tic and calculate_next_logging_tic by their contracts"])
