"""C12: table look-up is multilinear interpolation between the breakpoints around the point, or an error."""
from objs import *
from execu import FA
IP = "trick_source/trick_utils/interpolator/src/Interpolator.cpp"
SRC = [IP]
C = "Trick::Interpolator"
I_, R_ = z3.IntSort(), z3.RealSort()
Z = z3.IntVal


def P(ex, s, g, t, kind="post"): ex.prove(s, g if not isinstance(g, bool) else z3.BoolVal(g), t, kind, assume=False)


def with_(s, c):
    t = s.fork(); t.add(c); return t


class Table:
    """n parameters; size(j) breakpoints of parameter j, increasing; room(j) = the number of entries of the table for each choice of the parameters from j on counts down: room(0) = 1, room(j + 1) = room(j) * size(j), room(n) = entries of the table"""

    def __init__(self, ex, st):
        self.ex = ex; self.n = n = z3.Int("parameters"); st.add(And(n >= 1, n < 2 ** 31))
        o = self.o = ex.new_obj("interpolator", 32, C, "obj"); st.cells(o, True)
        self.room = z3.Function("room", I_, I_); self.V = z3.Function("interpolated", I_, I_, R_); self.bad = z3.Function("outside_from", I_, z3.BoolSort())
        st.add(And(self.room(0) == 1, self.room(n) >= 1, self.room(n) < 2 ** 31))
        mk = lambda nm, stride, k, kind: self.block(st, nm, stride, k, kind)
        self.tb, self.T = mk("table", 8, self.room(n), "double"); self.bb, self.B = mk("breakPointArrays", 8, n, "ptr"); self.sb, self.S = mk("breakPointArraySizes", 4, n, "i32"); self.pb, self.X = mk("param", 8, n, "double")
        for f, b in (("table", self.tb), ("breakPointArrays", self.bb), ("breakPointArraySizes", self.sb)): ex.setf(st, o, f, Ptr(b), "ptr", C)
        ex.setf(st, o, "nParams", n, "i32", C)
        self.H = ex.heap_arr(st, ("P", "double"), "double"); self.H0 = self.H
        j, a, b = z3.Ints("_j _a _b")
        st.addq(FA([j], z3.Implies(And(0 <= j, j < n), And(self.S.get(j) >= 2, self.S.get(j) < 2 ** 31)), [self.S.get(j)]))
        st.addq(FA([j], z3.Implies(And(0 <= j, j < n), And(self.B.get(j) > 0, self.B.get(j) < 2 ** 60)), [self.B.get(j)]))

    def block(self, st, nm, stride, k, kind):
        b = self.ex.new_obj(nm, stride * k, None, "heap"); b.elem = "ptr" if kind == "ptr" else None; b.readonly = True; r = Region(0, stride, k); b.regions.append(r)
        return b, self.ex.arr_get(st, b, r, 0, kind)

    def bp(self, j, k): return self.H.get(self.B.get(j) + 8 * k)

    def increasing(self, st, j):
        a, b = z3.Ints("_a _b"); A = lambda k: self.H.get(self.B.get(j) + 8 * k)
        st.addq(FA([a, b], z3.Implies(And(0 <= a, a < b, b < self.S.get(j)), A(a) < A(b)), [z3.MultiPattern(A(a), A(b))]))

    def order(self, j, c):
        """what increasing says about the breakpoint c"""
        b = lambda k: self.bp(j, k); m = self.S.get(j) - 1
        return And(z3.Implies(And(0 < c, c <= m), b(0) < b(c)), z3.Implies(And(0 <= c, c < m), And(b(c) < b(m), b(c) < b(c + 1), b(0) < b(c + 1))), z3.Implies(And(0 <= c, c + 1 < m), b(c + 1) < b(m)))

    def out(self, j): return Or(self.X.get(j) < self.bp(j, 0), self.X.get(j) > self.bp(j, self.S.get(j) - 1))

    def unfold(self, st, j):
        """the definitions at parameter j"""
        n = self.n; st.add(self.bad(j) == Or(self.out(j), And(j + 1 < n, self.bad(j + 1)))); st.add(And(self.room(j) >= 1, self.room(j + 1) <= self.room(n)))

    def value(self, j, last, k):
        """interpolated between the breakpoints k and k + 1 of parameter j"""
        x, lo, hi = self.X.get(j), self.bp(j, k), self.bp(j, k + 1); at = self.base + k
        f = lambda i: self.T.get(i) if last else self.V(j + 1, i)
        return (hi - x) / (hi - lo) * f(at) + (x - lo) / (hi - lo) * f(at + 1)


def integers(es):
    """the integer constants in some terms"""
    seen, todo, cs = set(), list(es), [Z(0)]
    while todo:
        e = todo.pop()
        if not isz(e) or e.get_id() in seen: continue
        seen.add(e.get_id()); todo += e.children()
        if z3.is_const(e) and z3.is_int(e) and not z3.is_int_value(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: cs.append(e)
    return cs


def witness(ex, st, val, ok):
    """an integer in the result of which ok is known"""
    cs = integers([val])
    for c in cs:
        if ex.known(st, ok(c)): return c
    return cs[-1]


def bracket(ctx):
    """any two breakpoints around the parameter give the same value, and a breakpoint gives its entry"""
    ex = ctx.exec(mode="int", fmode="real"); st = State(); x = z3.Real("x"); a, b = z3.Ints("a b"); p, f = z3.Function("breakpoint", I_, R_), z3.Function("entry", I_, R_)
    lin = lambda k: (p(k + 1) - x) / (p(k + 1) - p(k)) * f(k) + (x - p(k)) / (p(k + 1) - p(k)) * f(k + 1)
    st.add(And(0 <= a, a < b, p(a) <= x, x <= p(a + 1), p(b) <= x, x <= p(b + 1), p(a) < p(a + 1), p(b) < p(b + 1), Or(b == a + 1, p(a + 1) < p(b))))
    ex.prove(st, And(b == a + 1, x == p(b)), "brackets that share a point are neighbours", "lemma")
    for nm, k, at, e in (("lower", a, a, 0), ("upper", a, a + 1, 1)):
        u = State(); lo, hi, f0, f1 = z3.Reals("lo hi f0 f1"); u.add(lo < hi); v = hi if e else lo; d = hi - lo; w0, w1 = z3.Reals("w0 w1"); u.add(And(w0 * d == hi - v, w1 * d == v - lo))
        ex.prove(u, And(w0 == (0 if e else 1), w1 == (1 if e else 0)), "the weights at the %s breakpoint" % nm, "lemma"); ex.prove(u, w0 * f0 + w1 * f1 == (f1 if e else f0), "the %s breakpoint gives its entry" % nm, "lemma")
    ctx.cover(ex, st, "lemma")


def lookup(ctx):
    ex = ctx.exec(mode="int", fmode="real"); st = State(); T = Table(ex, st); n = T.n
    j, off = z3.Ints("param_index offset"); st.add(And(0 <= j, j < n)); T.unfold(st, j); T.increasing(st, j)
    st.add(And(0 <= off, off < T.room(j))); S = T.S.get(j); x = T.X.get(j)
    # base = offset * size: where the entries below this choice of the parameters start; (room - 1 - offset) * size >= 0, so they lie inside the table
    base = z3.Int("base"); u = State(); r = z3.Int("room"); z = z3.Int("size"); o_ = z3.Int("chosen"); u.add(And(0 <= o_, o_ < r, z >= 2))
    ex.prove(u, (r - 1 - o_) * z >= 0, "a product of two that are not negative", "lemma"); ex.prove(u, o_ * z >= 0, "a product of two that are not negative", "lemma"); ex.prove(u, o_ * z + z <= r * z, "the entries for one choice lie inside the table", "lemma")
    ex.int_canon = [(off, S, base)]; st.add(And(base >= 0, base + S <= T.room(j + 1), z3.Implies(off == 0, base == 0))); T.base = base

    def deeper(ex, s, a, x_):
        i, o2 = zint(a[2]), zint(a[3])
        P(ex, s, And(ex.pcmp(s, "eq", a[0], Ptr(T.o)), ex.pcmp(s, "eq", a[1], Ptr(T.pb))), "the same table and point are looked up further", "call")
        P(ex, s, And(i == j + 1, i < n), "the next parameter is looked up", "call"); P(ex, s, And(o2 >= 0, o2 < T.room(i)), "the choice so far lies inside the table", "call")
        if ex.branch(s, T.bad(i)): return Outcome("throw", s, NULL)
        return T.V(i, o2)
    ex.patterns += [(re.compile(r"^Trick::Interpolator::eval\(double\*, unsigned int, unsigned int\)"), deeper)] + STREAM

    def cands(V):
        c = []; s = V.st
        for nm, v in V.all_pos():
            v = zint(v)
            c += [("%s >= 0" % (nm,), v >= 0), ("%s in range" % (nm,), v <= S - 2), ("%s > 0" % (nm,), v >= 1), ("%s < size" % (nm,), v <= S - 1), ("%s passed" % (nm,), Or(v == 0, x > T.bp(j, v))), ("%s not below" % (nm,), Or(v == 0, x >= T.bp(j, v))), ("%s not above" % (nm,), Or(v >= S - 1, x <= T.bp(j, v))), ("below %s + 1" % (nm,), Or(v == S - 2, x <= T.bp(j, v + 1)))]
        return c
    ex.cands_fn = cands; ex.loop_policy = "inv"; ret, thrown = [], []
    for o in ex.call(st, meth(ex, C + "::eval(double*, unsigned int, unsigned int)"), [Ptr(T.o), Ptr(T.pb), j, off]):
        s = o.st
        for c in integers(s.pc): s.add(T.order(j, c))
        P(ex, s, T.bad(j) if o.kind == "throw" else Not(T.bad(j)), "an error exactly when a parameter lies outside its breakpoints")
        if o.kind == "throw": thrown.append(s); continue
        last = ex.known(s, j == n - 1); w = witness(ex, s, o.val, lambda w: And(w >= 0, w < S - 1, T.bp(j, w) <= x, x <= T.bp(j, w + 1)))
        P(ex, s, And(w >= 0, w < S - 1, T.bp(j, w) <= x, x <= T.bp(j, w + 1)), "the breakpoints used lie around the parameter")
        s.add(T.bp(j, w) < T.bp(j, w + 1)) if ex.known(s, T.bp(j, w) < T.bp(j, w + 1)) else None
        P(ex, s, rv(o.val) == T.value(j, last, w), "the result interpolates between the breakpoints around the parameter"); t = s
        ret.append(t)
    ctx.cover_some(ex, [with_(s, j < n - 1) for s in ret], "a value, more parameters"); ctx.cover_some(ex, [with_(s, j == n - 1) for s in ret], "a value, last parameter"); ctx.cover_some(ex, thrown, "an error")


STREAM = [(re.compile(r"^std::(__cxx11::)?basic_stringstream|^std::(basic_)?ostream|^std::basic_ostream|^std::operator<<|^std::(__cxx11::)?basic_string<|^std::logic_error|^std::__cxx11::basic_stringstream"), lambda ex, st, a, x: a[0] if a else 0)]


def start(ctx):
    ex = ctx.exec(mode="int", fmode="real"); st = State(); T = Table(ex, st)

    def first(ex, s, a, x_):
        P(ex, s, And(ex.pcmp(s, "eq", a[0], Ptr(T.o)), ex.pcmp(s, "eq", a[1], Ptr(T.pb)), Eq(a[2], 0), Eq(a[3], 0)), "the look-up starts at the first parameter, with nothing chosen", "call")
        if ex.branch(s, T.bad(0)): return Outcome("throw", s, NULL)
        return T.V(0, 0)
    ex.patterns += [(re.compile(r"^Trick::Interpolator::eval\(double\*, unsigned int, unsigned int\)"), first)]; ret, thrown = [], []
    for o in ex.call(st, meth(ex, C + "::eval(double*)"), [Ptr(T.o), Ptr(T.pb)]):
        s = o.st; P(ex, s, T.bad(0) if o.kind == "throw" else And(Not(T.bad(0)), rv(o.val) == T.V(0, 0)), "the interpolated value, or an error exactly when a parameter lies outside its breakpoints"); (thrown if o.kind == "throw" else ret).append(s)
    ctx.cover_some(ex, ret, "a value"); ctx.cover_some(ex, thrown, "an error")


CS = [Contract("bracket", bracket, SRC, []), Contract("eval from a parameter on", lookup, SRC, [C + "::eval"]), Contract("eval", start, SRC, [C + "::eval"])]
CHECK = Check("C12", CS, Native("native/c12.cpp", SRC), trusted=[
    "every parameter has at least two breakpoints, strictly increasing, in an array of the size given, and the table has as many entries as the sizes multiply to (below 2^31)",
    "that the entries for one choice of parameters are offset * size (named once, with its bounds proved as a lemma), applied at every level of the recursion",
    "eval(double, ...) (variable arguments) is only run natively"])
