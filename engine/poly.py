"""Decides equalities between rational expressions over the reals by normalising both sides to a quotient of polynomials.
Rewrite rules for squares: sqrt(x)^2 -> x (when x >= 0 is known), sin(x)^2 -> 1 - cos(x)^2, and the contract's own."""
import z3
from fractions import Fraction
from vals import *


class TooBig(Exception): pass


LIM = 20000


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r


def mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for k, e in b: d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > LIM * 4: raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    if len(r) > LIM: raise TooBig()
    return r


ONE = {(): Fraction(1)}


class Norm:
    def __init__(self, ex, st, rules=()):
        self.ex, self.st = ex, st
        self.memo = {}
        self.atoms = {}
        self.sq = {}
        self.keep = []
        for a, b in rules:
            self.sq[self.atom(a)] = b     # resolved lazily: z3 term
        self.sqp = {}

    def atom(self, t):
        i = t.get_id()
        self.atoms[i] = t
        self.keep.append(t)
        return i

    def norm(self, t):
        if not isz(t): return ({(): Fraction(t)} if t else {}), ONE
        i = t.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self._norm(t)
            self.memo[i] = r
            self.keep.append(t)
        return r

    def _norm(self, t):
        if z3.is_rational_value(t):
            v = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return ({(): v} if v else {}), ONE
        if z3.is_int_value(t):
            v = Fraction(t.as_long()); return ({(): v} if v else {}), ONE
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            n, d = self.norm(ch[0])
            for c in ch[1:]:
                n2, d2 = self.norm(c)
                s = 1 if k == z3.Z3_OP_ADD else -1
                if d == d2: n = padd(n, n2, s)
                else: n, d = padd(pmul(n, d2), pmul(n2, d), s), pmul(d, d2)
            return self.red(n), d
        if k == z3.Z3_OP_UMINUS:
            n, d = self.norm(ch[0])
            return {m: -c for m, c in n.items()}, d
        if k == z3.Z3_OP_MUL:
            n, d = self.norm(ch[0])
            for c in ch[1:]:
                n2, d2 = self.norm(c)
                n, d = pmul(n, n2), (d if d2 is ONE else pmul(d, d2))
            return self.red(n), self.red(d)
        if k == z3.Z3_OP_DIV:
            n, d = self.norm(ch[0]); n2, d2 = self.norm(ch[1])
            if len(n2) == 1 and () in n2 and d2 == ONE:
                return {m: c / n2[()] for m, c in n.items()}, d
            if not self.nonzero(ch[1]):
                # division by a possibly zero value: only congruence
                return {((self.atom(z3.simplify(t)), 1),): Fraction(1)}, ONE
            return self.red(pmul(n, d2)), self.red(pmul(d, n2))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 < ch[1].numerator_as_long() < 9:
            n, d = self.norm(ch[0]); rn, rd = n, d
            for _ in range(ch[1].numerator_as_long() - 1): rn, rd = pmul(rn, n), pmul(rd, d)
            return self.red(rn), self.red(rd)
        if k == z3.Z3_OP_ITE:
            d = self.ex.known(self.st, ch[0])
            if d is True: return self.norm(ch[1])
            if self.ex.known(self.st, z3.Not(ch[0])): return self.norm(ch[2])
            if self.kn(z3.Implies(ch[0], ch[1] == ch[2])): return self.norm(ch[2])
            if self.kn(z3.Implies(z3.Not(ch[0]), ch[1] == ch[2])): return self.norm(ch[1])
        return {((self.atom(t), 1),): Fraction(1)}, ONE

    def kn(self, f):
        """implied by the facts about f's own variables?  (falls back on all facts)"""
        vs = fvars(f)
        sub = [g for g in self.st.pc if fvars(g) <= vs]
        s = z3.simplify(f)
        if z3.is_true(s): return True
        r, _ = self.ex._check(sub + [z3.Not(f)], 2)
        if r == z3.unsat: return True
        return len(sub) != len(self.st.pc) and self.ex.known(self.st, f) is True

    def nonzero(self, t):
        s = z3.simplify(t)
        if z3.is_rational_value(s): return s.numerator_as_long() != 0
        return self.kn(t != 0)

    def square_of(self, i):
        """polynomial the square of atom i rewrites to, or None"""
        if i in self.sqp: return self.sqp[i]
        self.sqp[i] = None
        r = None
        if i in self.sq: r = self.norm(self.sq[i])
        else:
            t = self.atoms[i]
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                x, y = self.norm(t.arg(1)), self.norm(t.arg(2))
                if x[1] == ONE and y[1] == ONE:
                    x2, y2 = pmul(x[0], x[0]), pmul(y[0], y[0])
                    if not self.red(padd(x2, y2, -1)): r = (x2, ONE)
            elif z3.is_app(t) and t.num_args() == 1:
                nm = t.decl().name()
                if nm in ("sqrt", "m_sqrt"):
                    n = self.norm(t.arg(0))
                    if n[1] == ONE and (all(c >= 0 and all(e % 2 == 0 for _, e in m) for m, c in n[0].items()) or self.kn(t.arg(0) >= 0)): r = n
                elif nm in ("sin", "m_sin"):
                    c = self.ex.uf(nm.replace("sin", "cos"), z3.RealSort(), z3.RealSort())(t.arg(0))
                    r = ({(): Fraction(1), ((self.atom(c), 2),): Fraction(-1)}, ONE)
        if r is not None and r[1] != ONE: r = None
        self.sqp[i] = r[0] if r else None
        return self.sqp[i]

    def red(self, p):
        for _ in range(200):
            hit = None
            for m in p:
                for a, e in m:
                    if e >= 2 and self.square_of(a) is not None: hit = (m, a, e); break
                if hit: break
            if not hit: return p
            m, a, e = hit
            c = p[m]
            rest = tuple(sorted([(x, y) for x, y in m if x != a] + ([(a, e - 2)] if e > 2 else [])))
            p = dict(p); del p[m]
            p = padd(p, pmul({rest: c}, self.square_of(a)))
        return p

    def equal(self, a, b):
        try:
            n, d = self.norm(a); n2, d2 = self.norm(b)
            if d == d2: return not self.red(padd(n, n2, -1))
            # denominators are products of values known to be non-zero
            return not self.red(padd(self.red(pmul(n, d2)), self.red(pmul(n2, d)), -1))
        except TooBig:
            return False


_fv = {}


def fvars(t):
    """ids of the uninterpreted constants and applications in t"""
    r = _fv.get(t.get_id())
    if r is not None and r[0].eq(t): return r[1]
    s = set()
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED: s.add(t.get_id())
        for c in t.children(): s |= fvars(c)
    s = frozenset(s)
    _fv[t.get_id()] = (t, s)
    return s
