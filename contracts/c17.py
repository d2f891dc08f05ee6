"""C17: Unicode encoders against the Unicode standard's bit layouts; string converters against an automaton over the input position."""
from objs import *
import ir
UN = "trick_source/trick_utils/unicode/src/unicode_utils.c"
I8, I16, I32, I64 = (ir.T("i", n) for n in (8, 16, 32, 64))
MAX = 2 ** 40


# ------------------------------------------------------------------ the encoders, for every 32-bit code point
def cat(*parts): return z3.Concat(*parts)


def bits(cp, hi, lo): return z3.Extract(hi, lo, cp)


def lit(s): return z3.BitVecVal(int(s, 2), len(s))


# table 3-6 of the Unicode standard: the bits of the code point in each byte
def utf8_layout(cp):
    return [(z3.ULE(cp, 0x7f), [cat(lit("0"), bits(cp, 6, 0))]),
            (z3.And(z3.UGE(cp, 0x80), z3.ULE(cp, 0x7ff)), [cat(lit("110"), bits(cp, 10, 6)), cat(lit("10"), bits(cp, 5, 0))]),
            (z3.And(z3.UGE(cp, 0x800), z3.ULE(cp, 0xffff), z3.Not(surrogate(cp))), [cat(lit("1110"), bits(cp, 15, 12)), cat(lit("10"), bits(cp, 11, 6)), cat(lit("10"), bits(cp, 5, 0))]),
            (z3.And(z3.UGE(cp, 0x10000), z3.ULE(cp, 0x10ffff)), [cat(lit("11110"), bits(cp, 20, 18)), cat(lit("10"), bits(cp, 17, 12)), cat(lit("10"), bits(cp, 11, 6)), cat(lit("10"), bits(cp, 5, 0))])]


def surrogate(cp): return z3.And(z3.UGE(cp, 0xd800), z3.ULE(cp, 0xdfff))


def utf16_layout(cp):
    u = cp - 0x10000
    return [(z3.And(z3.ULE(cp, 0xffff), z3.Not(surrogate(cp))), [bits(cp, 15, 0)]),
            (z3.And(z3.UGE(cp, 0x10000), z3.ULE(cp, 0x10ffff)), [cat(lit("110110"), bits(u, 19, 10)), cat(lit("110111"), bits(u, 9, 0))])]


def utf16_known(cp):
    """what the known finding says is stored instead: 0xd800 + (cp >> 10), 0xdc00 + the low ten bits"""
    return [(utf16_layout(cp)[0][0], [bits(cp, 15, 0)]),
            (utf16_layout(cp)[1][0], [bits(z3.BitVecVal(0xd800, 32) + z3.LShR(cp, 10), 15, 0), cat(lit("110111"), bits(cp, 9, 0))])]


def utf32_layout(cp): return [(z3.And(z3.ULE(cp, 0x10ffff), z3.Not(surrogate(cp))), [cp])]


def encoder(name, unit, n, layout, known=None):
    def run(ctx):
        ex = ctx.exec(mode="bv", fmode="bits", loop_policy="unroll", handlers={"fprintf": lambda ex, st, a, x: 0}); st = State()
        cp = z3.BitVec("codePoint", 32)
        out = ex.new_obj("out", n * unit // 8, None, "obj"); c = st.cells(out, True)
        old = [z3.BitVec("out0_%d" % i, unit) for i in range(n)]
        for i in range(n): c[i * unit // 8] = (unit // 8, "i%d" % unit, old[i])
        rows = layout(cp); seen = []
        for o in ex.call(st, ex.find_fn(name), [cp, Ptr(out)]):
            s = o.st; seen.append(s); r = ex.bvc(o.val, 64)
            got = [ex.bvc(ex.load(s, Ptr(out, i * unit // 8), ir.T("i", unit)), unit) for i in range(n)]
            P(ex, s, z3.Implies(z3.Not(z3.Or(*[c for c, _ in rows])), r == 0), "code points that are none are refused")
            for (c, w), alt in zip(rows, known(cp) if known else [(None, None)] * len(rows)):
                P(ex, s, z3.Implies(c, r == len(w)), "%d unit%s for a code point of this range" % (len(w), "s" if len(w) > 1 else ""))
                g = z3.Implies(c, z3.And(*[got[i] == w[i] for i in range(len(w))]))
                text = "the %d unit%s the Unicode standard lays down" % (len(w), "s are those" if len(w) > 1 else " is the one")
                if alt[1] is None or alt[1] is w: P(ex, s, g, text)
                else: ctx.prove_or_known(ex, s, g, z3.Implies(c, z3.And(*[got[i] == alt[1][i] for i in range(len(w))])), text, "ucodepoint_to_utf16-high-surrogate")
                P(ex, s, z3.Implies(c, z3.And(*[got[i] == old[i] for i in range(len(w), n)])) if len(w) < n else True, "units beyond the encoding are not written")
        for c, w in rows: ctx.cover_some(ex, [with_(s, c) for s in seen], "%d units" % len(w))
    return Contract(name, run, [UN], [name])


def with_(s, c):
    t = s.fork(); t.add(c); return t


def P(ex, s, g, t): ex.prove(s, g if not isinstance(g, bool) else z3.BoolVal(g), t, assume=False)


# ------------------------------------------------------------------ the converters: automata over the input position
def fn(name, rng=None): return z3.Function(name, z3.IntSort(), z3.IntSort() if rng is None else rng)


def sel(rows, default):
    """if-then-else over (condition, value)"""
    r = zint(default)
    for c, v in reversed(rows): r = z3.If(c, zint(v), r)
    return r


def memo(tag, f):
    def g(self, k):
        d = self.__dict__.setdefault("memo", {}); key = (tag, k.get_id() if isz(k) else k)
        r = d.get(key)
        if r is None: r = d[key] = (f(self, k), k)
        return r[0]
    return g


class Auto:
    """the specification: at position k the automaton is in state ST(k) with values X(k).., N(k) elements were produced before k"""
    regs = ("CP",)

    def __init__(self, ex, inp, L):
        self.ex, self.inp, self.L = ex, inp, L
        self.ST, self.N = fn("ST"), fn("N")
        for r in self.regs: setattr(self, r, fn(r))
        # what position k yields: W(k) elements E[j](k); BAD(k): nothing can be yielded there
        self.W, self.BAD, self.E = fn("W"), fn("BAD", z3.BoolSort()), [fn("E%d" % j) for j in range(self.maxw())]
        self.ALL = z3.Bool("every input unit has a specified meaning")

    def __init_subclass__(cls):
        """step, width and defs are asked for again and again at the same few positions"""
        for n in ("step",):
            f = cls.__dict__.get(n)
            if f is not None: setattr(cls, n, memo(cls.__name__ + n, f))

    def unit(self, k):
        v = self.inp.get(k)
        return z3.If(v < 0, v + 256, v)

    def urange(self, k): return And(self.inp.get(k) >= -128, self.inp.get(k) < 128)

    def start(self): return And(self.ST(0) == 0, self.N(0) == 0, *[getattr(self, r)(0) == 0 for r in self.regs])

    def defs(self, k):
        """the definitions of the functions at k, as far as k is a position of the input"""
        nxt, emit, bad, un = self.step(k)
        f = [z3.Implies(self.ALL, z3.Not(un)), self.W(k) == sel([(c, len(w)) for c, w in emit], 0), self.BAD(k) == bad, self.N(k + 1) == self.N(k) + self.W(k), self.ST(k + 1) == nxt["ST"]] + [self.E[j](k) == sel([(c, w[j]) for c, w in emit if len(w) > j], 0) for j in range(self.maxw())] + [getattr(self, r)(k + 1) == nxt[r] for r in self.regs]
        return And(self.urange(k), z3.Implies(z3.And(k >= 0, k < self.L), z3.And(self.inp.get(k) != 0, *f)))

    def width(self, k): return self.W(k)

    def bad(self, k): return self.BAD(k)

    def elem(self, k, j): return self.E[j](k)

    def maxw(self):
        if not hasattr(self, "_maxw"): self._maxw = max(len(w) for c, w in self.step(z3.Int("k"))[1])
        return self._maxw

    def final_bad(self): return self.ST(self.L) != 0

    def final_un(self): return z3.BoolVal(False)

    def shape(self, k): return []


def surr(cp): return z3.And(cp >= 0xd800, cp <= 0xdfff)


class Utf8In(Auto):
    """ST: continuation bytes still to come; LO: the least code point a sequence of this length may encode"""
    regs = ("CP", "LO")

    def step(self, k):
        c, st, cp, lo = self.unit(k), self.ST(k), self.CP(k), self.LO(k)
        lead = lambda a, b: And(st == 0, c >= a, c <= b)
        cont = And(st > 0, c >= 0x80, c <= 0xbf)
        l2, l3, l4 = lead(0xc0, 0xdf), lead(0xe0, 0xef), lead(0xf0, 0xf7)
        full = cp * 64 + (c - 0x80)
        nxt = dict(ST=sel([(l2, 1), (l3, 2), (l4, 3), (cont, st - 1)], 0), CP=sel([(l2, c - 0xc0), (l3, c - 0xe0), (l4, c - 0xf0), (cont, full)], 0), LO=sel([(l2, 0x80), (l3, 0x800), (l4, 0x10000), (cont, lo)], 0))
        done = And(cont, st == 1); inv = z3.Or(surr(full), full > 0x10ffff)
        ill = Or(lead(0x80, 0xbf), And(st > 0, z3.Not(And(c >= 0x80, c <= 0xbf))))
        emit, bad, un = self.out(lead(0, 0x7f), c, done, full, inv)
        return nxt, emit, Or(ill, bad), Or(lead(0xf8, 0xff), And(done, full < lo), un)

    def shape(self, k):
        st, cp = self.ST(k), self.CP(k)
        return [And(st >= 0, st <= 3), And(cp >= 0, z3.Implies(st == 3, cp < 8), z3.Implies(st == 2, cp < 512), z3.Implies(st == 1, cp < 2 ** 15))]


class ToWide(Utf8In):
    def out(self, asc, c, done, full, inv): return [(asc, [c]), (And(done, z3.Not(inv)), [full])], And(done, inv), z3.BoolVal(False)


# the character of the p-th hexadecimal digit of v, lower case: nothing but that it is a digit matters to the proof
HEX = z3.Function("hexadecimal_digit", z3.IntSort(), z3.IntSort(), z3.IntSort())


def hexd(v, w):
    """w lower-case hexadecimal digits"""
    return [HEX(zint(v), z3.IntVal(w - 1 - i)) for i in range(w)]


SIMPLE = {7: "a", 8: "b", 12: "f", 10: "n", 13: "r", 9: "t", 11: "v"}


class ToAscii(Utf8In):
    def out(self, asc, c, done, full, inv):
        bs = ord("\\")
        rows = [(And(asc, c == k), [bs, ord(v)]) for k, v in SIMPLE.items()] + [(And(asc, c >= 32, c <= 126), [c]), (asc, [bs, ord("x")] + hexd(c, 2)),
                (And(done, full <= 0xffff), [bs, ord("u")] + hexd(full, 4)), (done, [bs, ord("U")] + hexd(full, 8))]
        return rows, z3.BoolVal(False), And(done, inv)

    # what lets the C escape be read back
    def step(self, k):
        nxt, emit, bad, un = super().step(k); r, prev = [], []
        for c, w in emit:
            r.append((And(c, *[z3.Not(p) for p in prev]), w)); prev.append(c)
        return nxt, r, bad, un


def utf8_bytes(cp):
    """as arithmetic: the same layout as utf8_layout"""
    f = lambda sh: 0x80 + (cp / 2 ** sh) % 64
    return [(And(cp >= 0, cp <= 0x7f), [cp]), (And(cp >= 0x80, cp <= 0x7ff), [0xc0 + cp / 64, f(0)]), (And(cp >= 0x800, cp <= 0xffff, z3.Not(surr(cp))), [0xe0 + cp / 4096, f(6), f(0)]),
            (And(cp >= 0x10000, cp <= 0x10ffff), [0xf0 + cp / 2 ** 18, f(12), f(6), f(0)])]


class Unescape(Auto):
    """ST 0 text, 1 after a backslash, 2 hexadecimal digits (DG still to come), 3 4 5: three, two, one continuation bytes to come"""
    regs = ("CP", "DG")

    def step(self, k):
        c, st, cp, dg = self.unit(k), self.ST(k), self.CP(k), self.DG(k)
        t = lambda a, b: And(st == 0, c >= a, c <= b)
        bsl = And(st == 0, c == ord("\\")); asc = And(t(0, 0x7f), z3.Not(bsl))
        esc = lambda ch: And(st == 1, c == ord(ch))
        same = [esc(x) for x in "'\"?\\"]; ctl = [(esc(v), k2) for k2, v in SIMPLE.items()]
        digit = sel([(And(c >= 48, c <= 57), c - 48), (And(c >= 65, c <= 70), c - 55), (And(c >= 97, c <= 102), c - 87)], -1)
        hx = And(st == 2, digit >= 0); full = cp * 16 + digit; done = And(hx, dg == 1)
        cont = And(st >= 3, c >= 0x80, c <= 0xbf)
        nxt = dict(ST=sel([(t(0xf0, 0xf7), 3), (t(0xe0, 0xef), 4), (t(0xc0, 0xdf), 5), (bsl, 1), (Or(esc("x"), esc("u"), esc("U")), 2), (And(hx, dg > 1), 2), (And(cont, st < 5), st + 1)], 0),
                   CP=sel([(And(hx, dg > 1), full)], 0), DG=sel([(esc("x"), 2), (esc("u"), 4), (esc("U"), 8), (And(hx, dg > 1), dg - 1)], 0))
        raw = Or(asc, And(t(0xc0, 0xf7)), cont, *same)
        emit = [(raw, [c])] + [(g, [v]) for g, v in ctl] + [(And(done, g), w) for g, w in utf8_bytes(full)]
        bad = Or(t(0x80, 0xbf), And(st == 1, z3.Not(Or(*same, *[g for g, v in ctl], esc("x"), esc("u"), esc("U")))), And(st == 2, digit < 0), And(st >= 3, z3.Not(And(c >= 0x80, c <= 0xbf))),
                 And(done, z3.Not(Or(*[g for g, w in utf8_bytes(full)]))))
        return nxt, emit, bad, t(0xf8, 0xff)

    def shape(self, k):
        st, cp, dg = self.ST(k), self.CP(k), self.DG(k)
        return [And(st >= 0, st <= 5), z3.Implies(st != 2, And(cp == 0, dg == 0)), And(z3.Implies(st == 2, And(dg >= 1, dg <= 8)), *[z3.Implies(And(st == 2, dg == d), And(cp >= 0, cp < 2 ** (32 - 4 * d))) for d in range(1, 9)])]


class WideIn(Auto):
    """CP: the value of a high surrogate waiting for its other half, or 0"""
    regs = ("CP",)

    def unit(self, k): return self.inp.get(k)

    def urange(self, k): return And(self.inp.get(k) >= -2 ** 31, self.inp.get(k) < 2 ** 31)

    def step(self, k):
        c, cp = self.unit(k), self.CP(k)
        hi, lo = And(c >= 0xd800, c <= 0xdbff), And(c >= 0xdc00, c <= 0xdfff)
        pair = cp + (c - 0xdc00)
        oth = z3.Not(Or(hi, lo))
        emit = [(And(oth, g), w) for g, w in utf8_bytes(c)] + [(And(lo, g), w) for g, w in utf8_bytes(pair) if len(w) == 4]
        return dict(ST=z3.IntVal(0), CP=z3.If(hi, (c - 0xd800) * 1024 + 0x10000, 0)), emit, And(oth, Or(c < 0, c > 0x10ffff)), Or(And(lo, cp == 0), And(z3.Not(lo), cp != 0))

    def final_un(self): return self.CP(self.L) != 0

    def shape(self, k): return [And(self.CP(k) % 1024 == 0, Or(self.CP(k) == 0, And(self.CP(k) >= 0x10000, self.CP(k) <= 0x10fc00)))]


# ------------------------------------------------------------------ C library functions the converters use
def text_at(ex, p):
    """the constant string p points to"""
    s = ""
    while True:
        c = ex.const_at(p.obj, p.c + len(s), "i8")
        if isz(c) or c is None: raise Unsupported("string is not constant")
        if c == 0: return s
        s += chr(c % 256)


def h_snprintf(ex, st, a, x):
    dst, size, fmt, args = a[0], a[1], text_at(ex, a[2]), list(a[3:])
    if isz(size): raise Unsupported("snprintf size")
    out, i = [], 0
    while i < len(fmt):
        if fmt[i] != "%": out.append(ord(fmt[i])); i += 1; continue
        m = re.match(r"%(0(\d))?([cxX])", fmt[i:])
        if not m: raise Unsupported("snprintf format %r" % fmt)
        v = zint(args.pop(0)); i += m.end()
        if m.group(3) == "c": out.append(z3.If(v % 256 >= 128, v % 256 - 256, v % 256)); continue
        if m.group(3) == "X" or not m.group(1): raise Unsupported("snprintf format %r" % fmt)
        w = int(m.group(2)); u = zint(ex.uns(st, v, 32))
        while w < 8 and not ex.branch(st, u < 16 ** w): w += 1
        out += hexd(u, w)
        for d in hexd(u, w): st.add(And(d >= 48, d <= 102))
    n = len(out)
    for j, v in enumerate(out[:size - 1] + [0]): ex.store(st, Ptr(dst.obj, dst.c + j, dst.terms), I8, v)
    return n


def h_strlen(ex, st, a, x):
    p = a[0]
    if p.terms: raise Unsupported("strlen of a computed place")
    for j in range(64):
        v = ex.load(st, Ptr(p.obj, p.c + j), I8)
        if (v == 0 if not isz(v) else ex.branch(st, v == 0)): return j
    raise Unsupported("strlen")


def h_strcat(witness):
    """the copied string is short and known; where the first string ends is one of the loop's values: checked, not assumed"""
    def h(ex, st, a, x):
        dst, src = a[0], a[1]
        n = h_strlen(ex, st, [src], x); r = dst.obj.regions[0]; cur = ex.arr_get(st, dst.obj, r, 0, "i8"); i = z3.Int("si")
        if not dst.same(Ptr(dst.obj)): raise Unsupported("strcat into the middle of a buffer")
        for w in ([ex.fresh("i64", "end", st)] if ex.nocand else witness(st)):
            w = zint(w)
            if not ex.nocand and not ex._holds(st, And(w >= 0, cur.get(w) == 0)) or not ex.nocand and not ex._holds(st, z3.ForAll([i], z3.Implies(And(i >= 0, i < w), cur.get(i) != 0))): continue
            for j in range(n + 1): ex.store(st, Ptr(dst.obj, 0, [(1, w + j)]), I8, ex.load(st, Ptr(src.obj, src.c + j), I8) if j < n else 0)
            return dst
        if not ex.recording: raise Unsupported("strcat: end of the string not found")
        P(ex, st, False, "the end of the string that strcat extends is known"); raise ex.Infeasible()
    return h


def h_encode(rows):
    """the contract of an encoder (proved above for every code point), one case per length"""
    def h(ex, st, a, x):
        u = zint(a[0]); c = z3.If(u < 0, u + 2 ** 32, u) if not z3.is_int_value(u) else u; r = []
        for cond, units, unit in rows(c) + [(None, [], 8)]:
            s = st.fork(); s.add(z3.Not(z3.Or(*[y for y, _, _ in rows(c)])) if cond is None else cond)
            if ex._check(s.pc, 5)[0] == z3.unsat: continue
            for i, w in enumerate(units):
                w = z3.simplify(z3.If(w >= 2 ** (unit - 1), w - 2 ** unit, w))
                ex.store(s, Ptr(a[1].obj, a[1].c + i * unit // 8, a[1].terms, a[1].tk), ir.T("i", unit), w)
            r.append(Outcome("ret", s, len(units)))
        return r
    return h


def rows8(c): return [(g, w, 8) for g, w in utf8_bytes(c)]


def rows32(c): return [(And(c >= 0, c <= 0x10ffff, z3.Not(surr(c))), [c], 32)]


def converter(name, spec, in_unit, out_unit, null, extra_cands=None):
    ik, ok = "i%d" % in_unit, "i%d" % out_unit

    def run(ctx):
        box = {}

        def cands(V):
            if "A" not in box: return []
            A, L, K, out, size = box["A"], box["L"], box["K"], box["out"], box["size"]
            k = zint(V.k); V.st.add(A.defs(k)); r = []
            if z3.is_const(k) and not z3.is_int_value(k): box["k"] = k
            box["ints"] = list(V.ints); box["L"] = L
            ch = A.inp.get(k)
            if box.get("ctype") is not None: V.st.add(box["ctype"](A.unit(k)))
            fact = lambda t, f: r.append((t, f))
            fact("position", k <= L)
            for i, f in enumerate(A.shape(k)): fact("spec %d" % i, f)
            fact("spec N", And(A.N(k) >= 0, A.N(k) <= A.maxw() * k)); fact("spec order", z3.Implies(K < k, And(A.N(K) >= 0, A.N(K) + A.width(K) <= A.N(k))))
            ints = [zint(v) for v in V.ints if isz(v) or v is not None]
            cur = None if out is None else ex.arr_get(V.st, out, out.regions[0], 0, ok)
            i = z3.Int("qi")
            fits = lambda p, w: z3.BoolVal(True) if out is None else A.N(p) + w < size
            errK = Or(A.bad(K), And(A.width(K) > 0, z3.Not(fits(K, A.width(K)))))
            w1 = z3.If(A.width(k - 1) > 1, A.width(k - 1), 1)
            for gi, g in enumerate([None] + list(range(len(ints)))):
                G = z3.BoolVal(True) if g is None else ints[g] != 99
                GA = And(A.ALL, G)
                gt = "" if g is None else " unless v%d is the error mark" % g
                for xi, x in enumerate(ints):
                    if xi == g:
                        fact("v%d is the state%s" % (xi, gt), z3.Implies(GA, x == A.ST(k)))
                        continue
                    fact("v%d is N%s" % (xi, gt), z3.Implies(GA, x == A.N(k)))
                    for rg in A.regs: fact("v%d is %s%s" % (xi, rg, gt), z3.Implies(GA, x == getattr(A, rg)(k)))
                    for rg in A.regs: fact("v%d is %s while reading%s" % (xi, rg, gt), z3.Implies(And(GA, A.ST(k) != 0), x == getattr(A, rg)(k)))
                    if out is not None: fact("v%d is inside%s" % (xi, gt), z3.Implies(G, And(x >= 0, x < size)))
                    if out is not None and cur is not None and extra_cands:
                        fact("v%d ends the string%s" % (xi, gt), z3.Implies(G, cur.get(x) == 0)); fact("no end before v%d%s" % (xi, gt), z3.Implies(G, z3.ForAll([i], z3.Implies(And(i >= 0, i < x), cur.get(i) != 0))))
                if g is not None:
                    fact("v%d marks errors" % g, z3.Implies(And(A.ALL, K < k, errK), ints[g] == 99))
                    fact("v%d marks only errors" % g, z3.Implies(And(A.ALL, ints[g] == 99), And(k >= 1, Or(A.bad(k - 1), z3.Not(fits(k - 1, w1))))))
                    fact("v%d is a state" % g, And(ints[g] >= 0, ints[g] <= 99))
                if cur is not None:
                    for j in range(A.maxw()):
                        fact("output %d%s" % (j, gt), z3.Implies(And(GA, K < k, A.width(K) > j), cur.get(A.N(K) + j) == val(A.elem(K, j))))
            fact("no errors", z3.Implies(A.ALL, z3.Implies(K < k, z3.Not(errK))))
            for xi, x in enumerate(ints):
                fact("v%d is not much" % xi, And(x >= 0, x <= A.maxw() * k)); fact("v%d is a multiple of 1024" % xi, And(x % 1024 == 0)); fact("v%d < 2^21" % xi, And(x >= 0, x < 2 ** 21))
            return r

        def val(e):
            return e if out_unit > 8 else z3.If(e >= 128, e - 256, e)

        hs = {"fprintf": lambda ex, st, a, x: 0, "snprintf": h_snprintf, "strlen": h_strlen, "strcat": h_strcat(lambda st: box.get("ints", [])), "ucodepoint_to_utf8": h_encode(rows8), "ucodepoint_to_utf32": h_encode(rows32)}
        ex = ctx.exec(mode="int", fmode="real", handlers=hs, cands=cands, path_limit=60000, loop_policy="inv"); st = State(); ex.hold_timeout = 15
        L, size, K = z3.Ints("L outSize K"); st.add(And(L >= 0, L < MAX, size >= 1, size < MAX, K >= 0, K < L))
        inp = ex.new_obj("in", None, None, "obj"); inp.regions.append(Region(0, in_unit // 8, L + 1)); inp.elem = ik; inp.size = (L + 1) * (in_unit // 8); inp.readonly = True
        arr = ex.arr_get(st, inp, inp.regions[0], 0, ik); st.add(arr.get(L) == 0)
        out = None
        if not null:
            out = ex.new_obj("out", None, None, "obj"); out.regions.append(Region(0, out_unit // 8, size)); out.elem = ok; out.size = size * (out_unit // 8)
        A = spec(ex, arr, L); st.add(A.start())
        # the C locale's printable characters
        tab = ex.new_obj("ctype table", 512, None, "obj"); tab.regions.append(Region(0, 2, 256)); tab.elem = "i16"; tab.readonly = True
        tp = ex.new_obj("ctype pointer", 8, None, "obj"); st.cells(tp, True)[0] = (8, "ptr", Ptr(tab))
        ct = ex.arr_get(st, tab, tab.regions[0], 0, "i16")
        box["ctype"] = lambda c: ((ct.get(c) / 0x4000) % 2 == 1) == And(c >= 32, c <= 126)
        ex.handlers["__ctype_b_loc"] = lambda ex, st, a, x: Ptr(tp)
        box.update(A=A, L=L, K=K, out=out, size=size)
        ctx.cover(ex, st, "precondition")
        outs = ex.call(st, ex.find_fn(name), [Ptr(inp), NULL if null else Ptr(out), 0 if null else size])
        good = []
        for o in outs:
            s = o.st; r = zint(o.val); k = box.get("k")
            if k is None: raise Unsupported("no loop over the input")
            s.add(A.defs(k)); good.append(s)
            if out is not None:
                cur = ex.arr_get(s, out, out.regions[0], 0, ok)
                P(ex, s, And(r >= 0, r < size), "the length returned lies inside the output array"); P(ex, s, cur.get(r) == 0, "the output is terminated where the length says")
            H = And(A.ALL, z3.Not(A.final_un()))
            fits = lambda p, w: z3.BoolVal(True) if out is None else A.N(p) + w < size
            errK = Or(A.bad(K), And(A.width(K) > 0, z3.Not(fits(K, A.width(K)))))
            P(ex, s, z3.Implies(And(H, errK), r == 0), "invalid input and output that does not fit yield an empty result")
            P(ex, s, z3.Implies(And(H, A.final_bad()), r == 0), "input that ends in the middle of a character yields an empty result")
            P(ex, s, z3.Implies(And(H, r != 0), And(k == L, r == A.N(L), A.ST(L) == 0)), "otherwise the length is that of the whole conversion")
            w1 = lambda p: z3.If(A.width(p) > 1, A.width(p), 1)
            wit = lambda p: And(p >= 0, p < L, Or(A.bad(p), z3.Not(fits(p, w1(p)))))
            P(ex, s, z3.Implies(And(H, r == 0), Or(And(k == L, A.N(L) == 0), A.final_bad(), wit(k), wit(k - 1))), "the result is only empty for a reason")
            if out is not None:
                for j in range(A.maxw()): P(ex, s, z3.Implies(And(H, r != 0, A.width(K) > j), cur.get(A.N(K) + j) == val(A.elem(K, j))), "element %d of what every input position yields is in its place" % j)
                P(ex, s, z3.Implies(And(H, r != 0), And(A.N(K) >= 0, A.N(K) + A.width(K) <= r)), "and inside the result")
            P(ex, s, z3.Implies(r != 0, True), "return")
        ctx.cover_some(ex, [with_(s, And(A.ALL, L == 3, zint(o.val) != 0)) for s, o in zip(good, outs)], "a conversion")
        # no input string at all
        for o in ex.call(st.fork(), ex.find_fn(name), [NULL, NULL if null else Ptr(out), 0 if null else size]): P(ex, o.st, Eq(o.val, 0), "no input: nothing is converted")
    return Contract(name + (" (length only)" if null else ""), run, [UN], [name], timeout=600)


def length(name, conv):
    def run(ctx):
        ex = ctx.exec(mode="int", fmode="real"); st = State()
        st.ghost["calls"] = Rec(); r = external(ex, conv, "i64")
        i = ex.new_obj("in", None, None, "obj")
        for o in ex.call(st, ex.find_fn(name), [Ptr(i)]):
            c = calls(o.st); P(ex, o.st, len(c) == 1, "the conversion runs once, without an output array")
            if len(c) == 1: P(ex, o.st, And(ex.pcmp(o.st, "eq", c[0][1][0], Ptr(i)), ex.pcmp(o.st, "eq", c[0][1][1], NULL), Eq(o.val, c[0][2])), "its length is returned")
            ctx.cover(ex, o.st, "return")
    return Contract(name, run, [UN], [name])


CONV = [("utf8_to_wchar", ToWide, 8, 32, False), ("wchar_to_utf8", WideIn, 32, 8, False), ("unescape_to_utf8", Unescape, 8, 8, False), ("escape_to_ascii", ToAscii, 8, 8, True)]
CS = [encoder("ucodepoint_to_utf8", 8, 4, utf8_layout), encoder("ucodepoint_to_utf16", 16, 2, utf16_layout, utf16_known), encoder("ucodepoint_to_utf32", 32, 1, utf32_layout)]
for n, sp, i, o, cat_ in CONV: CS += [converter(n, sp, i, o, False, cat_), converter(n, sp, i, o, True)]
CS += [length(a + "_len", a) for a, *_ in CONV]
CHECK = Check("C17", CS, Native("native/c17.cpp", [UN]), trusted=["isprint() is that of the C locale", "known finding: the high surrogate of ucodepoint_to_utf16"])
