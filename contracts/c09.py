"""C09: the doubly linked list, and the queue and stack made of it, stay well formed and hold the sequence asked for."""
import re
from objs import *
from execu import FA
AD = "trick_source/trick_utils/trick_adt/src/"
DL, LQ, LS = AD + "dllist.c", AD + "lqueue.c", AD + "lstack.c"
I_ = z3.IntSort()
Z = z3.IntVal
NODE = "struct._DLLNODE"
INFO, PREV, NEXT = 0, 8, 16


def P(ex, s, g, t, kind="post"): ex.prove(s, g if not isinstance(g, bool) else z3.BoolVal(g), t, kind, assume=False)


def with_(s, c):
    t = s.fork(); t.add(c); return t


class Chain:
    """a well-formed list of c elements: N(i) is the node at position i, pos(a) the position of the node at address a (-1: not in the list)"""

    def __init__(self, ex, st, cls="_DLLIST"):
        self.ex = ex; self.watch = []; self.o = ex.struct_obj(None, cls, "list")
        self.N, self.pos = z3.Function("N", I_, I_), z3.Function("pos", I_, I_); self.c = c = z3.Int("count")
        st.add(And(c >= 0, c < 2 ** 31 - 1))
        N, pos = self.N, self.pos
        self.set(st, c, z3.If(c > 0, N(0), 0), z3.If(c > 0, N(c - 1), 0))
        for k in (INFO, PREV, NEXT): self.f(st, k)
        self.s0 = st.fork(); nx, pv = self.f(st, NEXT), self.f(st, PREV); i, a = z3.Ints("_i _a"); inr = And(0 <= i, i < c)
        st.addq(FA([i], z3.Implies(inr, And(N(i) > 0, N(i) < 2 ** 62, pos(N(i)) == i)), [N(i)]))
        st.addq(FA([i], z3.Implies(inr, nx.get(N(i)) == z3.If(i == c - 1, 0, N(i + 1))), [nx.get(N(i))])); st.addq(FA([i], z3.Implies(inr, pv.get(N(i)) == z3.If(i == 0, 0, N(i - 1))), [pv.get(N(i))]))
        st.addq(FA([a], And(pos(a) >= -1, pos(a) < c, z3.Implies(pos(a) >= 0, N(pos(a)) == a)), [pos(a)]))
        st.add(pos(0) == -1)
        for k in (0, c - 1): st.add(z3.Implies(c > 0, And(N(k) > 0, pos(N(k)) == k)))

    def f(self, st, k): return self.ex.heap_arr(st, ("F", NODE, k), "ptr")

    def set(self, st, c, h, t):
        cc = st.cells(self.o, True); cc[0] = (4, "i32", c); cc[8] = (8, "ptr", self.ex.dec(h)); cc[16] = (8, "ptr", self.ex.dec(t)); self.cmp = z3.Int("compare"); st.add(And(self.cmp >= 0, self.cmp < 2 ** 62)); cc[24] = (8, "ptr", self.ex.dec(self.cmp))

    def get(self, st, k):
        if k == 0: return zint(self.ex.load_cell(st, self.o, 0, "i32", 4, "spec"))
        return zint(self.ex.addr(self.ex.load_cell(st, self.o, k, "ptr", 8, "spec")))

    def at(self, st, p):
        """an address passed in: what is known about the node it may be"""
        st.add(And(self.pos(p) >= -1, self.pos(p) < self.c, z3.Implies(self.pos(p) >= 0, And(self.N(self.pos(p)) == p, p > 0)), p >= 0, p < 2 ** 62)); self.watch.append(self.pos(p)); return p

    def well(self, s, seq, n, what=""):
        """the state is a well-formed list of the n nodes seq(0), seq(1), ..."""
        ex = self.ex; I = z3.Int("anywhere"); nx, pv = self.f(s, NEXT), self.f(s, PREV); inr = And(0 <= I, I < n); t = s
        for x in (I - 1, I, I + 1): t = with_(t, And(*[z3.Implies(And(0 <= y, y < self.c), And(self.N(y) > 0, self.pos(self.N(y)) == y)) for y in (x,)]))
        P(ex, t, self.get(t, 0) == n, "the count is the number of elements" + what)
        P(ex, t, self.get(t, 8) == z3.If(n > 0, seq(Z(0)), 0), "the head is the first element" + what); P(ex, t, self.get(t, 16) == z3.If(n > 0, seq(n - 1), 0), "the tail is the last element" + what)
        P(ex, t, z3.Implies(inr, nx.get(seq(I)) == z3.If(I == n - 1, 0, seq(I + 1))), "each element is followed by the next one" + what)
        P(ex, t, z3.Implies(inr, pv.get(seq(I)) == z3.If(I == 0, 0, seq(I - 1))), "each element is preceded by the one before" + what)

    def kept(self, s, but=None, what="the contents of the elements do not change"):
        I = z3.Int("anywhere"); a = self.N(I); inf, i0 = self.f(s, INFO), self.f(self.s0, INFO)
        P(self.ex, s, z3.Implies(And(0 <= I, I < self.c, *([a != but] if but is not None else [])), inf.get(a) == i0.get(a)), what, "frame")

    def same(self, s, what=" (unchanged)"): self.well(s, self.N, self.c, what); self.kept(s)


def search(ex):
    """the list's own search: the function private to dllist.c that takes a position and a list (whatever its name)"""
    r = [n for m in ex.modules for n in m._rawfn if not re.match(r"(DLL|LQ|LS)_(?!ListContainsPos)", n) and len(m.fn(n).params) == 2 and str(m.fn(n).ret) in ("i32", "i1")]
    return r[0] if len(r) == 1 else None


def setup(ctx, cls="_DLLIST", contains=True, lo=False):
    ex = ctx.exec(mode="int", fmode="real"); st = State(); L = Chain(ex, st, cls); st.ghost.update(new=G(Z(0)), freed=G(Z(0)), frees=G(Z(0)), listfreed=G(Z(0)))

    def malloc(ex, s, a, x):
        if zb_is(s, ex, zint(a[0]) == 24): pass
        n = ex.fresh("i64", "new_node", s); s.add(And(n > 0, n < 2 ** 62, L.pos(n) == -1)); P(ex, s, Eq(a[0], 24), "room for one element is taken", "call"); P(ex, s, s.ghost["new"].v == 0, "one element is made", "call"); s.ghost["new"] = G(n)
        return ex.dec(n)

    def free(ex, s, a, x):
        if isinstance(a[0], Ptr) and a[0].obj is L.o: s.ghost["listfreed"] = G(s.ghost["listfreed"].v + 1); return None
        s.ghost["freed"] = G(zint(ex.addr(a[0]))); s.ghost["frees"] = G(s.ghost["frees"].v + 1)
        if lo: P(ex, s, L.pos(zint(ex.addr(a[0]))) == s.ghost["lo"].v, "each element is given back once, in turn", "call"); s.ghost["lo"] = G(s.ghost["lo"].v + 1)
        return None
    ex.handlers.update(malloc=malloc, free=free, fprintf=lambda ex, s, a, x: 0, fflush=lambda ex, s, a, x: 0)
    if contains:
        def has(ex, s, a, x):
            P(ex, s, ex.pcmp(s, "eq", a[1], Ptr(L.o)), "the list itself is searched", "call"); p = L.at(s, zint(ex.addr(a[0]))); lo_ = s.ghost["lo"].v if lo else Z(0)
            J = z3.Int("anywhere_"); s2 = s; n0 = L.f(L.s0, NEXT)
            P(ex, s2, L.get(s2, 8) == z3.If(lo_ < L.c, L.N(lo_), 0), "the list is searched from its head", "call"); P(ex, s2, z3.Implies(And(lo_ <= J, J < L.c), L.f(s2, NEXT).get(L.N(J)) == n0.get(L.N(J))), "the list is whole when it is searched", "call")
            return ite(L.pos(p) >= lo_, 1, 0)
        n = search(ex)
        if n: ex.handlers[n] = lambda ex, s, a, x: has(ex, s, a if isinstance(a[1], Ptr) and a[1].obj is L.o else a[::-1], x)

    def cands(V):
        s = V.st; c = []; k = V.k; N = L.N
        for nm, v in V.all_ptrs():
            if isinstance(v, Ptr) and not (isinstance(v.obj, Obj)):
                a = zint(ex.addr(v)); L_ = z3.If(k < L.c, N(k), 0)
                c += [("%s goes forward" % (nm,), And(a == L_, k <= L.c)), ("%s goes backward" % (nm,), And(a == z3.If(k < L.c, N(L.c - 1 - k), 0), k <= L.c))]
        for e in L.watch: c += [("not before", Or(e < 0, e >= k)), ("not behind", Or(e < 0, e <= L.c - 1 - k))]
        for q in getattr(L, "miss", []): c += [("not found before", q(k))]
        for nm, v in V.all_ints(): c += [("%s counts" % (nm,), zint(v) == k), ("%s goes down" % (nm,), zint(v) == L.c - k)]
        if hasattr(L, "target"): c += [("before the target", k <= L.target)]
        if lo:
            r = s.ghost["lo"].v; i = z3.Int("_ci"); nx, pv, n0, p0 = L.f(s, NEXT), L.f(s, PREV), L.f(L.s0, NEXT), L.f(L.s0, PREV)
            c += [("removed so far", r == k), ("removed", And(r >= 0, r <= L.c)), ("count", L.get(s, 0) == L.c - r), ("head", L.get(s, 8) == z3.If(r < L.c, N(r), 0)), ("tail", L.get(s, 16) == z3.If(r < L.c, N(L.c - 1), 0)), ("first", z3.Implies(r < L.c, pv.get(N(r)) == 0)), ("frees", s.ghost["frees"].v == r),
                  ("next kept", FA([i], z3.Implies(And(r <= i, i < L.c), nx.get(N(i)) == n0.get(N(i))), [nx.get(N(i))])), ("prev kept", FA([i], z3.Implies(And(r < i, i < L.c), pv.get(N(i)) == p0.get(N(i))), [pv.get(N(i))]))]
        return c
    ex.cands_fn = cands; ex.loop_policy = "inv"; ex.deref_ok = True
    return ex, st, L


def zb_is(s, ex, g): return False


def C(name, fn, src=(DL,), fs=None, timeout=240): return Contract(name, fn, list(src), fs or [name], timeout=timeout)


def call(ex, st, name, args): return ex.call(st, ex.find_fn(name), args)


def contains(ctx):
    ex, st, L = setup(ctx, contains=False); p = L.at(st, z3.Int("position")); r = []
    n = search(ex)
    if n is None: return direct(ctx)
    for o in call(ex, st, n, [ex.dec(p), Ptr(L.o)]):
        s = o.st; P(ex, s, Eq(zint(o.val) != 0, L.pos(p) >= 0), "a position is found exactly when the list holds it"); L.same(s); r.append(s)
    ctx.cover_some(ex, [with_(s, L.pos(p) > 0) for s in r], "found"); ctx.cover_some(ex, [with_(s, L.pos(p) < 0) for s in r], "not found")


def direct(ctx):
    """when the search has no function of its own: the function it is part of"""
    ex, st, L = setup(ctx, contains=False); p = L.at(st, z3.Int("position"))
    for o in call(ex, st, "DLL_GetAt", [ex.dec(p), Ptr(L.o)]):
        s = o.st; P(ex, s, zint(ex.addr(o.val)) == z3.If(L.pos(p) >= 0, L.f(L.s0, INFO).get(p), 0), "the element at a position, none where there is no such position"); L.same(s); ctx.cover(ex, s, "return")


def get_at(ctx):
    ex, st, L = setup(ctx); p = L.at(st, z3.Int("position"))
    for o in call(ex, st, "DLL_GetAt", [ex.dec(p), Ptr(L.o)]):
        s = o.st; P(ex, s, zint(ex.addr(o.val)) == z3.If(L.pos(p) >= 0, L.f(L.s0, INFO).get(p), 0), "the element at a position, none where there is no such position"); L.same(s); ctx.cover(ex, s, "return")


def set_at(ctx):
    ex, st, L = setup(ctx); p, d = L.at(st, z3.Int("position")), z3.Int("data"); st.add(And(d >= 0, d < 2 ** 62))
    for o in call(ex, st, "DLL_SetAt", [ex.dec(p), ex.dec(d), Ptr(L.o)]):
        s = o.st; h = L.pos(p) >= 0; P(ex, s, zint(ex.addr(o.val)) == z3.If(h, L.f(L.s0, INFO).get(p), 0), "the element before, none where there is no such position"); P(ex, s, z3.Implies(h, L.f(s, INFO).get(p) == d), "the position holds the element given")
        L.well(s, L.N, L.c); L.kept(s, p, "the other elements do not change"); ctx.cover(ex, s, "return")


def walk(name, back):
    def run(ctx):
        ex, st, L = setup(ctx); p = L.at(st, z3.Int("position")); m = ex.new_obj("position", 8, None, "obj"); st.cells(m, True)[0] = (8, "ptr", ex.dec(p))
        for o in call(ex, st, name, [Ptr(m), Ptr(L.o)]):
            s = o.st; h = L.pos(p) >= 0; k = L.pos(p); q = zint(ex.addr(s.mem[m.id][0][2]))
            P(ex, s, zint(ex.addr(o.val)) == z3.If(h, L.f(L.s0, INFO).get(p), 0), "the element at the position, none where there is no such position")
            P(ex, s, q == z3.If(h, z3.If(k == 0, 0, L.N(k - 1)) if back else z3.If(k == L.c - 1, 0, L.N(k + 1)), p), "the position moves on by one, to none at the end"); L.same(s); ctx.cover(ex, s, "return")
    return C(name, run)


def inserted(L, k, new): return (lambda i: z3.If(i < k, L.N(i), z3.If(i == k, new, L.N(i - 1))))


def removed(L, k): return (lambda i: z3.If(i < k, L.N(i), L.N(i + 1)))


def made(ex, s, L, o, k, d, what=""):
    n = s.ghost["new"].v; P(ex, s, n != 0, "an element is made" + what); P(ex, s, L.f(s, INFO).get(n) == d, "the new element holds the data given" + what)
    L.well(s, inserted(L, k, n), L.c + 1, what); L.kept(s); P(ex, s, s.ghost["frees"].v == 0, "nothing is given back" + what)
    if o is not None: P(ex, s, zint(ex.addr(o.val)) == n, "the position of the new element is returned" + what)


def insert(name, after):
    def run(ctx):
        ex, st, L = setup(ctx); p, d = L.at(st, z3.Int("position")), z3.Int("data"); st.add(And(d >= 0, d < 2 ** 62, Or(p == 0, L.pos(p) >= 0))); r = []
        for o in call(ex, st, name, [ex.dec(p), ex.dec(d), Ptr(L.o)]):
            s = o.st
            if ex.known(s, p == 0): P(ex, s, zint(ex.addr(o.val)) == 0, "without a position nothing is inserted"); L.same(s); P(ex, s, s.ghost["new"].v == 0, "without a position nothing is made"); continue
            P(ex, s, p != 0, "a position is given"); made(ex, s, L, o, L.pos(p) + (1 if after else 0), d); r.append(s)
        for nm, g in (("at an end", L.pos(p) == (L.c - 1 if after else 0)), ("in the middle", And(L.pos(p) > 0, L.pos(p) < L.c - 1))): ctx.cover_some(ex, [with_(s, g) for s in r], nm)
    return C(name, run)


def add(name, tail):
    def run(ctx):
        ex, st, L = setup(ctx); d = z3.Int("data"); st.add(And(d >= 0, d < 2 ** 62)); r = []
        for o in call(ex, st, name, [ex.dec(d), Ptr(L.o)]): made(ex, o.st, L, o, L.c if tail else Z(0), d); r.append(o.st)
        ctx.cover_some(ex, [with_(s, L.c == 0) for s in r], "empty"); ctx.cover_some(ex, [with_(s, L.c > 1) for s in r], "more")
    return C(name, run)


def taken(ex, s, L, k, val, what=""):
    p = L.N(k); P(ex, s, zint(ex.addr(val)) == L.f(L.s0, INFO).get(p), "the element removed is returned" + what); L.well(s, removed(L, k), L.c - 1, what); L.kept(s)
    P(ex, s, And(s.ghost["frees"].v == 1, s.ghost["freed"].v == p), "its node is given back, and no other" + what); P(ex, s, s.ghost["new"].v == 0, "nothing is made" + what)


def remove_at(ctx):
    ex, st, L = setup(ctx); p = L.at(st, z3.Int("position")); r = []
    for o in call(ex, st, "DLL_RemoveAt", [ex.dec(p), Ptr(L.o)]):
        s = o.st
        if ex.known(s, L.pos(p) < 0): P(ex, s, zint(ex.addr(o.val)) == 0, "nothing is removed where there is no such position"); L.same(s); P(ex, s, s.ghost["frees"].v == 0, "nothing is given back then"); continue
        P(ex, s, L.pos(p) >= 0, "the position is in the list"); taken(ex, s, L, L.pos(p), o.val); r.append(s)
    for nm, g in (("only one", L.c == 1), ("first", And(L.c > 2, L.pos(p) == 0)), ("middle", And(L.pos(p) > 0, L.pos(p) < L.c - 1)), ("last", And(L.c > 2, L.pos(p) == L.c - 1))): ctx.cover_some(ex, [with_(s, g) for s in r], nm)


def empty(ex, s, L):
    P(ex, s, And(L.get(s, 0) == 0, L.get(s, 8) == 0, L.get(s, 16) == 0), "the list is empty"); P(ex, s, And(s.ghost["frees"].v == L.c, s.ghost["lo"].v == L.c), "every element is given back")


def remove_all(name):
    def run(ctx):
        ex, st, L = setup(ctx, lo=True); st.ghost["lo"] = G(Z(0))
        for o in call(ex, st, name, [Ptr(L.o)]):
            s = o.st; empty(ex, s, L); P(ex, s, s.ghost["listfreed"].v == (1 if name == "DLL_Delete" else 0), "the list itself is given back exactly when it is deleted"); ctx.cover(ex, s, "return")
    return C(name, run)


def ends(ctx):
    for nm, k in (("DLL_GetCount", 0), ("DLL_GetHeadPosition", 8), ("DLL_GetTailPosition", 16)):
        ex, st, L = setup(ctx); ex.tag = nm
        for o in call(ex, st, nm, [Ptr(L.o)]):
            s = o.st; v = zint(o.val) if k == 0 else zint(ex.addr(o.val)); P(ex, s, v == (L.c if k == 0 else z3.If(L.c > 0, L.N(0 if k == 8 else L.c - 1), 0)), "the number, first and last of the elements"); L.same(s); ctx.cover(ex, s, nm)
    for nm, cls in (("DLL_Init", "_DLLIST"),):
        ex, st, L = setup(ctx); ex.tag = nm
        for o in call(ex, st, nm, [Ptr(L.o)]):
            s = o.st; P(ex, s, And(*[L.get(s, k) == 0 for k in (0, 8, 16, 24)]), "an initialised list is empty"); ctx.cover(ex, s, nm)


def find_pos(ctx):
    ex, st, L = setup(ctx); d = z3.Int("data"); st.add(And(d >= 0, d < 2 ** 62)); j = z3.Int("_fj"); inf = L.f(L.s0, INFO); r = []
    L.miss = [lambda k: FA([j], z3.Implies(And(0 <= j, j < k, j < L.c), inf.get(L.N(j)) != d), [L.N(j)])]
    for o in call(ex, st, "DLL_FindPos", [ex.dec(d), Ptr(L.o)]):
        s = o.st; v = L.at(s, zint(ex.addr(o.val))); J = z3.Int("anywhere"); s.add(z3.Implies(And(0 <= J, J < L.c), L.N(J) > 0))
        P(ex, s, Or(v == 0, And(L.pos(v) >= 0, inf.get(v) == d)), "the position found is in the list and holds the data"); P(ex, s, z3.Implies(And(0 <= J, J < L.c, Or(v == 0, J < L.pos(v))), inf.get(L.N(J)) != d), "no earlier element holds the data, none at all when none is found"); L.same(s); r.append((s, v))
    ctx.cover_some(ex, [with_(s, v == 0) for s, v in r], "none"); ctx.cover_some(ex, [with_(s, L.pos(v) > 0) for s, v in r], "one")


def find(ctx):
    """the comparison is an unknown relation of the two elements that changes nothing"""
    ex, st, L = setup(ctx); d = z3.Int("data"); st.add(And(d >= 0, d < 2 ** 62)); j = z3.Int("_fj"); inf = L.f(L.s0, INFO); r = []; M = z3.Function("matches", I_, I_, I_); st.addq(FA([j], z3.Implies(And(0 <= j, j < L.c), inf.get(L.N(j)) > 0), [inf.get(L.N(j))]))
    def cmp(ex, s, cal, a, x):
        P(ex, s, zint(ex.addr(cal)) == L.cmp, "the comparison of the list is asked", "call"); v = M(zint(ex.addr(a[0])), zint(ex.addr(a[1]))); s.add(And(v >= -2 ** 31, v < 2 ** 31)); return v
    ex.virt["fnptr"] = cmp; L.miss = [lambda k: FA([j], z3.Implies(And(0 <= j, j < k, j < L.c), M(inf.get(L.N(j)), d) == 0), [L.N(j)])]
    for o in call(ex, st, "DLL_Find", [ex.dec(d), Ptr(L.o)]):
        s = o.st; J, w = z3.Ints("anywhere found"); v = zint(ex.addr(o.val)); s.add(z3.Implies(And(0 <= J, J < L.c), L.N(J) > 0))
        if ex.known(s, L.cmp == 0): P(ex, s, v == 0, "nothing is found without a comparison"); L.same(s); continue
        P(ex, s, Or(v == 0, M(v, d) != 0), "what is found matches the data"); P(ex, s, z3.Implies(And(v == 0, 0 <= J, J < L.c), M(inf.get(L.N(J)), d) == 0), "when nothing is found no element matches"); L.same(s); r.append((s, v))
    ctx.cover_some(ex, [with_(s, v == 0) for s, v in r], "none"); ctx.cover_some(ex, [with_(s, v != 0) for s, v in r], "one")


def nothing(ctx):
    """operations on no list at all report that and touch nothing"""
    for nm, args, want in (("DLL_GetCount", [], -1), ("DLL_GetHeadPosition", [], 0), ("DLL_GetTailPosition", [], 0), ("DLL_FindPos", ["d"], 0), ("DLL_Find", ["d"], 0), ("DLL_FindIndex", ["i"], 0), ("DLL_GetAt", ["d"], 0), ("DLL_SetAt", ["d", "d"], 0), ("DLL_RemoveAt", ["d"], 0), ("DLL_RemoveAll", [], None),
                           ("DLL_Delete", [], None), ("DLL_Init", [], None), ("DLL_InsertBefore", ["d", "d"], 0), ("DLL_InsertAfter", ["d", "d"], 0), ("DLL_AddHead", ["d"], 0), ("DLL_AddTail", ["d"], 0)):
        ex, st, L = setup(ctx); ex.tag = nm; d, i = z3.Ints("data n"); st.add(And(d >= 0, d < 2 ** 62, i >= -2 ** 31, i < 2 ** 31))
        for o in call(ex, st, nm, [{"d": ex.dec(d), "i": i}[a] for a in args] + [ex.dec(Z(0))]):
            s = o.st; L.same(s)
            if want is not None: P(ex, s, (zint(o.val) if want == -1 else zint(ex.addr(o.val))) == want, "nothing comes of an operation on no list")
            P(ex, s, And(s.ghost["frees"].v == 0, s.ghost["new"].v == 0), "nothing is made or given back"); ctx.cover(ex, s, nm)


def create(ctx):
    for nm, cls, size, src in (("DLL_Create", "_DLLIST", 32, DL), ("LQ_Create", "_LQUEUE", 32, LQ), ("LS_Create", "_LSTACK", 32, LS)):
        ex, st, L = setup(ctx, cls); ex.tag = nm
        def malloc(ex, s, a, x): P(ex, s, Eq(a[0], size), "room for the container is taken", "call"); return Ptr(L.o)
        ex.handlers["malloc"] = malloc
        for o in call(ex, st, nm, []):
            s = o.st; P(ex, s, ex.pcmp(s, "eq", o.val, Ptr(L.o)), "what is made is returned"); P(ex, s, And(*[L.get(s, k) == 0 for k in (0, 8, 16)]), "it is empty"); ctx.cover(ex, s, nm)


def find_index(ctx):
    ex, st, L = setup(ctx); n = z3.Int("n"); st.add(And(n >= -2 ** 31, n < 2 ** 31)); L.target = n; r = []
    for o in call(ex, st, "DLL_FindIndex", [n, Ptr(L.o)]):
        s = o.st; P(ex, s, zint(ex.addr(o.val)) == z3.If(And(n >= 0, n < L.c), L.N(n), 0), "the position with this number, none outside the list"); L.same(s); r.append(s)
    ctx.cover_some(ex, [with_(s, And(n > 1, n < L.c)) for s in r], "one")


# the queue and the stack hold their list as their only member
def container(name, cls, kind, src):
    def run(ctx):
        ex, st, L = setup(ctx, cls); d = z3.Int("data"); st.add(And(d >= 0, d < 2 ** 62)); r = []; last = "tail" in kind
        if kind == "push": outs = [(o, None) for o in call(ex, st, name, [ex.dec(d), Ptr(L.o)])]
        else: outs = [(o, None) for o in call(ex, st, name, [Ptr(L.o)])]
        for o, _ in outs:
            s = o.st; k = L.c - 1 if last else Z(0)
            if kind == "push": made(ex, s, L, None, Z(0), d)
            elif kind == "count": P(ex, s, Eq(o.val, L.c), "the number of elements"); L.same(s)
            elif kind.startswith("peek"): P(ex, s, zint(ex.addr(o.val)) == z3.If(L.c > 0, L.f(L.s0, INFO).get(L.N(k)), 0), "the element whose turn it is, none when there is none"); L.same(s)
            elif kind == "init": P(ex, s, And(*[L.get(s, q) == 0 for q in (0, 8, 16)]), "empty")
            elif ex.known(s, L.c == 0): P(ex, s, zint(ex.addr(o.val)) == 0, "nothing comes out when there is nothing"); L.same(s)
            else: P(ex, s, L.c > 0, "there is an element"); taken(ex, s, L, k, o.val)
            r.append(s)
        ctx.cover_some(ex, [with_(s, L.c == 0) for s in r], "empty"); ctx.cover_some(ex, [with_(s, L.c > 2) for s in r], "more")
    return C(name, run, (src, DL))


CS = [C("DLL_ListContainsPos", contains), C("DLL_GetAt", get_at), C("DLL_SetAt", set_at), walk("DLL_GetNext", False), walk("DLL_GetPrev", True), insert("DLL_InsertBefore", False), insert("DLL_InsertAfter", True), add("DLL_AddHead", False), add("DLL_AddTail", True),
      C("DLL_RemoveAt", remove_at), remove_all("DLL_RemoveAll"), remove_all("DLL_Delete"), C("ends and count", ends, fs=["DLL_GetCount", "DLL_GetHeadPosition", "DLL_GetTailPosition", "DLL_Init"]), C("DLL_FindPos", find_pos), C("DLL_FindIndex", find_index), C("DLL_Find", find), C("no list", nothing, fs=["DLL_RemoveAll"]), C("create", create, (DL, LQ, LS), ["DLL_Create", "LQ_Create", "LS_Create"]),
      container("LQ_EnQ", "_LQUEUE", "push", LQ), container("LQ_DeQ", "_LQUEUE", "take tail", LQ), container("LQ_Peek", "_LQUEUE", "peek tail", LQ), container("LQ_GetCount", "_LQUEUE", "count", LQ), container("LQ_Init", "_LQUEUE", "init", LQ),
      container("LS_Push", "_LSTACK", "push", LS), container("LS_Pop", "_LSTACK", "take", LS), container("LS_Peek", "_LSTACK", "peek", LS), container("LS_GetCount", "_LSTACK", "count", LS), container("LS_Init", "_LSTACK", "init", LS)]
CHECK = Check("C09", CS, Native("native/c09.cpp", [DL, LQ, LS, AD + "bubble_sort.c"]), trusted=[
    "malloc succeeds and returns a node that is in no list; free, fprintf and fflush touch no list",
    "the list given is well formed (as every contract leaves it), of fewer than 2^31 - 1 elements; a position given to DLL_InsertBefore/After is null or in the list",
    "the compare function of DLL_Find changes nothing; the elements it looks through are not null", "bubble_sort is only run natively"])
