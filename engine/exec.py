"""Symbolic execution of LLVM IR with contracts: generates and discharges the verification conditions."""
import re, subprocess, time, math, os, sys
from fractions import Fraction
import z3
import ir
from ir import sizeof, field_off, innermost, I, PTR, DBL, FLT
from vals import *


class Fork(Exception):
    def __init__(self, cond): self.cond = cond


class PathBudget(Unsupported):
    pass


class State:
    __slots__ = ("pc", "qpc", "mem", "arrs", "heap", "freed", "owned", "ghost", "seen", "hints")

    def __init__(self):
        self.pc, self.qpc, self.mem, self.arrs, self.heap, self.freed = [], [], {}, {}, {}, frozenset()
        self.owned, self.ghost, self.seen = set(), {}, frozenset()

    def fork(self):
        s = State.__new__(State)
        s.pc, s.qpc = list(self.pc), list(self.qpc)
        s.mem, s.arrs, s.heap = dict(self.mem), dict(self.arrs), dict(self.heap)
        s.freed, s.ghost, s.seen = self.freed, dict(self.ghost), self.seen
        s.owned = set(); self.owned = set()
        return s

    def cells(self, o, write=False):
        d = self.mem.get(o.id)
        if d is None:
            d = {}
            self.mem[o.id] = d
            self.owned.add(o.id)
        elif write and o.id not in self.owned:
            d = dict(d)
            self.mem[o.id] = d
            self.owned.add(o.id)
        return d

    def add(self, f):
        if f is True: return
        if isinstance(f, bool): f = z3.BoolVal(f)
        self.pc.append(f)

    def addq(self, f):
        if f is True: return
        if isinstance(f, bool): f = z3.BoolVal(f)
        self.qpc.append(f)


def kind_of(t):
    if t.k == "i": return "i%d" % t.n
    if t.k in ("ptr", "double", "float"): return t.k
    raise Unsupported("scalar type %r" % t)


def kbits(k):
    return {"ptr": 64, "double": 64, "float": 32}.get(k) or int(k[1:])


def ksize(k): return (kbits(k) + 7) // 8


_strip = re.compile(r"(\.base)?(\.\d+)?$")


def tname(n):
    return _strip.sub("", n) if n else n


class Outcome:
    def __init__(self, kind, st, val=None): self.kind, self.st, self.val = kind, st, val


class Frame:
    def __init__(self, fn, depth, args):
        self.fn, self.depth, self.args = fn, depth, args
        self.visits = {}


class LoopView:
    """what invariant candidates are stated over"""

    def __init__(self, ex, fr, L, st, phis, entry, k, H=None):
        self.ex, self.fr, self.L, self.st, self.phis, self.entry, self.k, self.H = ex, fr, L, st, phis, entry, k, (H if H is not None else {})
        self.fn = fr.fn.name

    env = {}

    def outer_ptrs(self):
        """pointers to unknown objects held in variables that the loop does not change: [(name, address)]"""
        r, seen = [], set()
        ch = {n for n, t, v in self.phis}
        for n, v in self.env.items():
            if n in ch or not isinstance(v, Ptr) or not isinstance(v.obj, SymObj) or v.c or v.terms: continue
            h = v.obj.e.hash()
            if h not in seen: seen.add(h); r.append((n, v.obj.e))
        return r

    def cells(self, kinds):
        """[(key, value)]: what the loop changes in local variables and in object fields"""
        r = []
        for loc, info in list(self.H.items()):
            if loc[0] == "cell" and info[1] in kinds:
                c = self.st.mem.get(loc[1], {}).get(loc[2])
                if c is not None: r.append(((self.ex.objs[loc[1]].name, loc[1], loc[2]), c[2]))
        return r

    def all_ints(self):
        return [(n, v) for n, t, v in self.phis if t.k == "i" and t.n > 1] + self.cells(("i32", "i64", "i16", "i8"))

    def all_pos(self):
        """integers, and the element indices of pointers into arrays"""
        import models
        r = self.all_ints()
        for n, v in self.all_ptrs():
            if isinstance(v, Ptr) and isinstance(v.obj, Obj) and v.obj.regions:
                i = models.index_in(self.ex, v.obj.regions[0], v)
                if i is not None: r.append((("@", n), i))
        return r

    def all_ptrs(self):
        return [(n, v) for n, t, v in self.phis if t.k == "ptr"] + self.cells(("ptr",))

    @property
    def ints(self): return [v for n, t, v in self.phis if t.k == "i" and t.n > 1]

    @property
    def bools(self): return [v for n, t, v in self.phis if t.k == "i" and t.n == 1]

    @property
    def reals(self): return [v for n, t, v in self.phis if t.k in ("double", "float")]

    @property
    def ptrs(self): return [v for n, t, v in self.phis if t.k == "ptr"]


class Exec:
    def __init__(self, modules, mode="int", fmode="real", handlers=None, patterns=None, loop_policy="auto", cands=None,
                 unroll_limit=80, nsw="math", path_limit=4000, timeout=20, inline=None, virt=None, lazy_fp=False):
        self.modules = modules
        self.mode, self.fmode = mode, fmode
        self.handlers = dict(handlers or {})
        self.patterns = list(patterns or [])
        self.loop_policy, self.cands_fn, self.unroll_limit = loop_policy, cands, unroll_limit
        self.nsw, self.path_limit, self.timeout = nsw, path_limit, timeout
        self.inline_deny = inline
        self.virt = virt or {}
        self.objs = {}
        self.globals_, self.fnobjs, self.addr2obj = {}, {}, {}
        self.nfresh = 0
        self.obl = []
        self.assumed = set()
        self.called = set()
        self.inlined = set()
        self.recording = True
        self.nowrap = False
        self._foff = {}
        self.nocand = False; self.cuts, self.cutH = [], {}; self.loop_path, self.loop_ord, self.loop_kept = [], {}, {}       # first look at a loop: no invariants are needed
        self.volatile = None      # what another thread may have done to a volatile location just before it is read
        self.paths = 0
        self.solver_time = 0.0
        self.nqueries = 0
        self.tag = ""
        self.safety = True
        self.check_overflow = False
        self.axioms = []
        self.deadline = None
        self.sq_rules = []
        self._feas = z3.Solver()
        self._feas.set("timeout", 3000)
        self._dm = {}
        self._ufs = {}
        self._heapbase = {}
        self.kinds_seen = {}
        self.inv_report = []
        self.keep, self.inputs = [], []
        self.Infeasible = Infeasible

    # ------------------------------------------------------------ names
    def demangle(self, n):
        if n not in self._dm:
            names = set([n])
            for m in self.modules:
                names |= set(m._rawfn) | set(m.decls)
            names = [x for x in names if x not in self._dm]
            out = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
            for a, b in zip(names, out): self._dm[a] = b
        return self._dm[n]

    def find_fn(self, name):
        for m in self.modules:
            if name in m._rawfn: return m.fn(name)
        return None

    def find_demangled(self, pat):
        """functions whose demangled name matches the regex (or starts with the text)"""
        r = []
        for m in self.modules:
            for n in m._rawfn:
                d = self.demangle(n)
                if d == pat or d.startswith(pat + "(") or (not pat.isidentifier() and re.fullmatch(pat, d)):
                    r.append(n)
        return sorted(set(r))

    # ------------------------------------------------------------ fresh symbols
    def fresh_name(self, base):
        self.nfresh += 1
        return "%s!%d" % (base, self.nfresh)

    def fresh(self, kind, base="v", st=None):
        """fresh value of a scalar kind; range facts go to st"""
        nm = self.fresh_name(base)
        return self.symbol(kind, nm, st)

    def symbol(self, kind, nm, st=None):
        if kind == "i1": return z3.Bool(nm)
        if kind == "double" or kind == "float":
            if self.fmode == "real": return z3.Real(nm)
            if self.fmode == "bits": return z3.BitVec(nm, 64 if kind == "double" else 32)
            return z3.FP(nm, z3.Float64() if kind == "double" else z3.Float32())
        if kind == "ptr":
            e = z3.Int(nm) if self.mode == "int" else z3.BitVec(nm, 64)
            if st is not None and self.mode == "int": st.add(e >= 0)
            return Ptr(SymObj(e))
        n = int(kind[1:])
        if self.mode == "bv": return z3.BitVec(nm, n)
        e = z3.Int(nm)
        if st is not None:
            st.add(z3.And(e >= -2 ** (n - 1), e < 2 ** (n - 1)))
        return e

    def range_fact(self, st, kind, v):
        if self.mode != "int" or not isz(v) or kind[0] != "i" or kind == "i1": return
        n = int(kind[1:])
        k = v.get_id()
        if (k, n) in st.seen: return
        st.seen = st.seen | {(k, n)}
        self.keep.append(v)
        st.add(z3.And(v >= -2 ** (n - 1), v < 2 ** (n - 1)))

    def uf(self, name, *sorts):
        if name not in self._ufs: self._ufs[name] = z3.Function(name, *sorts)
        return self._ufs[name]

    # ------------------------------------------------------------ solver
    def _check(self, fs, timeout=None, model=False, mbqi=True):
        s = z3.Solver() if mbqi else z3.SimpleSolver()
        s.set("timeout", int((timeout or self.timeout) * 1000))
        if not mbqi: s.set("mbqi", False)
        cr, sr = s.ctx.ref(), s.solver
        seen = set()
        for f in fs:
            if f is True: continue
            if f is False: f = z3.BoolVal(False)
            i = z3.Z3_get_ast_id(cr, f.ast)
            if i in seen: continue
            seen.add(i)
            z3.Z3_solver_assert(cr, sr, f.ast)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.nqueries += 1
        return r, s

    def feasible(self, st, extra=None):
        fs = st.pc + ([zb(extra)] if extra is not None else [])
        r, _ = self._check(fs, 3)
        return r != z3.unsat

    def decide(self, st, c):
        """True / False when determined by the path, None otherwise"""
        if isinstance(c, bool): return c
        c2 = z3.simplify(c)
        if z3.is_true(c2): return True
        if z3.is_false(c2): return False
        if not self.feasible(st, c): return False
        if not self.feasible(st, z3.Not(c)): return True
        return None

    def known(self, st, c):
        """is c implied by the (quantifier-free) path condition?  cheap, sound"""
        if isinstance(c, bool): return c
        c2 = z3.simplify(c)
        if z3.is_true(c2): return True
        if z3.is_false(c2): return False
        r, _ = self._check(st.pc + [z3.Not(c)], 2)
        return r == z3.unsat

    def branch(self, st, c):
        d = self.decide(st, c)
        if d is None: raise Fork(c)
        return d

    # obligations
    def prove(self, st, goal, name, kind="post", extra=(), assume=True, timeout=None):
        """record an obligation: the path condition implies goal"""
        if not self.recording:
            if assume: self._assume(st, goal)
            return True
        t0 = time.time()
        status, model, be = self._prove(st, goal, extra, timeout)
        self.obl.append(dict(name=(self.tag + ": " + name) if self.tag else name, kind=kind, status=status, backend=be,
                             time=round(time.time() - t0, 3), model=model))
        if assume: self._assume(st, goal)
        return status == "proved"

    def _assume(self, st, goal):
        if goal is True: return
        g = zb(goal)
        if has_quant(g): st.addq(g)
        else: st.add(g)

    def _prove(self, st, goal, extra=(), timeout=None):
        if goal is True: return "proved", None, "syntactic"
        g = zb(goal)
        gs = z3.simplify(g)
        if z3.is_true(gs): return "proved", None, "simplifier"
        if self.fmode == "real":
            rest = self._poly(st, g)
            if rest is True: return "proved", None, "polynomial normaliser"
            g = rest
        fs = st.pc + st.qpc + self.axioms + [zb(x) for x in extra]
        to = timeout or self.timeout
        # quantifier-free part first
        if st.qpc or self.axioms:
            r, s = self._check(st.pc + [z3.Not(g)], 3)
            if r == z3.unsat: return "proved", None, "z3"
        r, s = self._check(fs + [z3.Not(g)], to)
        if r == z3.unsat: return "proved", None, "z3"
        if r == z3.sat: return "failed", s.model(), "z3"
        # second attempts
        for seed in (7, 23):
            s2 = z3.Solver(); s2.set("timeout", int(to * 1000)); s2.set("random_seed", seed)
            try: s2.set("smt.arith.solver", 2)
            except Exception: pass
            for f in fs + [z3.Not(g)]: s2.add(f)
            t = time.time(); r = s2.check(); self.solver_time += time.time() - t; self.nqueries += 1
            if r == z3.unsat: return "proved", None, "z3(arith2)"
            if r == z3.sat: return "failed", s2.model(), "z3(arith2)"
            break
        txt = s.to_smt2()
        r = run_cvc5(txt, to)
        if r == "unsat": return "proved", None, "cvc5"
        return "unknown", None, "z3,cvc5"

    def _poly(self, st, g):
        """discharges the real equalities of a conjunction; True or what is left"""
        import poly
        cs = []

        def flat(x):
            if z3.is_and(x):
                for c in x.children(): flat(c)
            else: cs.append(x)
        flat(g)
        left = []
        nm = None
        for c in cs:
            if z3.is_eq(c) and c.arg(0).sort().kind() == z3.Z3_REAL_SORT:
                if nm is None: nm = poly.Norm(self, st, self.sq_rules)
                if nm.equal(c.arg(0), c.arg(1)): continue
            left.append(c)
        if not left: return True
        return z3.And(*left) if len(left) > 1 else left[0]

    # ------------------------------------------------------------ integers
    def wrap(self, st, e, n, fl=()):
        if not isz(e):
            m = 1 << n
            e %= m
            return e - m if e >= m >> 1 else e
        if self.mode == "bv": return e
        e = z3.simplify(e)
        if z3.is_int_value(e): return self.wrap(st, e.as_long(), n)
        if self.nowrap: return e
        if ("nsw" in fl) and self.nsw == "math":
            self.assumed.add("signed integer arithmetic does not overflow")
            return e
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        if self.known(st, z3.And(e >= lo, e <= hi)): return e
        m = 1 << n
        if self.known(st, z3.And(e >= lo - m, e <= hi + m)):
            return z3.If(e > hi, e - m, z3.If(e < lo, e + m, e))
        return (e + (1 << (n - 1))) % m - (1 << (n - 1))

    def uns(self, st, e, n):
        """unsigned reading of a canonical signed value"""
        if not isz(e): return e % (1 << n)
        if self.known(st, e >= 0): return e
        return z3.If(e < 0, e + (1 << n), e)

    def bvc(self, v, n):
        return v if isz(v) else z3.BitVecVal(v, n)

    def binop(self, st, op, t, a, b, fl, loc):
        if t.k in ("double", "float"): return self.fbin(st, op, t, a, b)
        if t.k == "vec": raise Unsupported("vector arithmetic")
        n = t.n
        if n == 1:
            if op == "xor": return (a != b) if isinstance(a, bool) and isinstance(b, bool) else \
                (Not(a) if b is True else Not(b) if a is True else a if b is False else b if a is False else z3.Xor(zb(a), zb(b)))
            if op == "and": return And(a, b)
            if op == "or": return Or(a, b)
            raise Unsupported("i1 " + op)
        if isinstance(a, (Ptr, VTab, Opaque)) or isinstance(b, (Ptr, VTab, Opaque)):
            raise Unsupported("%s on pointer/opaque value" % op)
        if self.mode == "bv": return self.bvbin(st, op, n, a, b, fl, loc)
        ca, cb = not isz(a), not isz(b)
        if op == "add":
            if ca and cb: return self.wrap(st, a + b, n)
            if cb and b == 0: return a
            if ca and a == 0: return b
            return self.wrap(st, zint(a) + zint(b), n, fl)
        if op == "sub":
            if ca and cb: return self.wrap(st, a - b, n)
            if cb and b == 0: return a
            return self.wrap(st, zint(a) - zint(b), n, fl)
        if op == "mul":
            if ca and cb: return self.wrap(st, a * b, n)
            if cb and b == 1: return a
            if ca and a == 1: return b
            za, zb_ = zint(a), zint(b)
            for x, y, rep in self.int_canon:
                if (za.eq(x) and zb_.eq(y)) or (za.eq(y) and zb_.eq(x)): return rep
            return self.wrap(st, za * zb_, n, fl)
        if op in ("sdiv", "udiv", "srem", "urem"):
            nz = Not(Eq(b, 0))
            if nz is not True and self.safety:
                self.prove(st, nz, "no division by zero at %s" % loc, "safety")
            elif nz is False:
                raise Unsupported("division by constant zero")
            if ca and cb and b != 0:
                if op == "sdiv": return self.wrap(st, int(abs(a) // abs(b)) * (1 if (a >= 0) == (b > 0) else -1), n)
                if op == "srem": return a - b * int(abs(a) // abs(b)) * (1 if (a >= 0) == (b > 0) else -1)
                ua, ub = a % (1 << n), b % (1 << n)
                return self.wrap(st, ua // ub if op == "udiv" else ua % ub, n)
            if op[0] == "u":
                a, b = self.uns(st, a, n), self.uns(st, b, n)
                a, b = zint(a), zint(b)
                if op == "udiv":
                    d, c = linear(a)
                    if not isz(b) or z3.is_int_value(b):
                        bb = b.as_long() if isz(b) else b
                        if all((q / bb).denominator == 1 for _, q in d.values()) and (c / bb).denominator == 1:
                            return self.wrap(st, zint(from_linear({k: (x, q / bb) for k, (x, q) in d.items()}, c / bb)), n)
                    return self.wrap(st, a / b, n)
                return self.wrap(st, a % b, n)
            A, B = zint(a), zint(b)
            if cb:
                d, c = linear(z3.simplify(A))
                if all((q / b).denominator == 1 for _, q in d.values()) and (c / b).denominator == 1:
                    q = from_linear({k: (x, q / b) for k, (x, q) in d.items()}, c / b)
                    return q if op == "sdiv" else 0
            apos, bpos = self.known(st, A >= 0), (b > 0 if cb else self.known(st, B > 0))
            if apos and bpos: return (A / B) if op == "sdiv" else (A % B)
            q = z3.If(A >= 0, z3.If(B > 0, A / B, -(A / -B)), z3.If(B > 0, -(-A / B), (-A) / (-B)))
            if bpos: q = z3.If(A >= 0, A / B, -((-A) / B))
            return q if op == "sdiv" else A - B * q
        if op == "shl" and cb:
            if ca: return self.wrap(st, a << b, n)
            return self.wrap(st, zint(a) * (1 << b), n, fl)
        if op == "lshr" and cb:
            if ca: return self.wrap(st, (a % (1 << n)) >> b, n)
            return self.wrap(st, zint(self.uns(st, a, n)) / (1 << b), n)
        if op == "ashr" and cb:
            if ca: return a >> b
            return zint(a) / (1 << b)
        if op == "and":
            if ca and cb: return a & b
            if ca: a, b, ca, cb = b, a, cb, ca
            if cb:
                if b == 0: return 0
                if b == -1: return a
                if b > 0 and (b & (b + 1)) == 0: return zint(a) % (b + 1)
                if b > 0 and (b & (b - 1)) == 0:   # single bit
                    return ((zint(a) / b) % 2) * b
                lz = (b & -b).bit_length() - 1
                if b > 0 and ((b >> lz) & ((b >> lz) + 1)) == 0: return ((zint(a) / (1 << lz)) % ((b >> lz) + 1)) * (1 << lz)
                nb = -b
                if b < 0 and (nb & (nb - 1)) == 0:   # clear low bits
                    return zint(a) - zint(a) % nb
        if op == "or":
            if ca and cb: return a | b
            if cb and b == 0: return a
            if ca and a == 0: return b
            if "disjoint" in fl: return zint(a) + zint(b)
            if self.apart(st, a, b) or self.apart(st, b, a): return zint(a) + zint(b)
        if op == "xor":
            if ca and cb: return a ^ b
            if cb and b == -1: return -1 - a
            if ca and a == -1: return -1 - b
            if cb and b == 0: return a
            a01, b01 = as01(a), as01(b)
            if a01 is not None and b01 is not None:
                return ite(z3.Xor(zb(a01), zb(b01)), 1, 0)
        if op in ("and", "or"):
            a01, b01 = as01(a), as01(b)
            if a01 is not None and b01 is not None:
                return ite(And(a01, b01) if op == "and" else Or(a01, b01), 1, 0)
        # bit-precise fallback
        A, B = z3.Int2BV(zint(a), n), z3.Int2BV(zint(b), n)
        r = {"and": lambda: A & B, "or": lambda: A | B, "xor": lambda: A ^ B, "shl": lambda: A << B,
             "lshr": lambda: z3.LShR(A, B), "ashr": lambda: A >> B}[op]()
        return z3.BV2Int(r, is_signed=True)

    def apart(self, st, a, b):
        """b is small and not negative, a is a multiple of a power of two above it: no bit is in both"""
        u = ubound(zint(b))
        ms = [u.bit_length()] if u is not None else []
        if not ms: ms = [m for m in (4, 6, 8, 10, 16) if self.known(st, And(zint(b) >= 0, zint(b) < 1 << m))][:1]
        for m in ms:
            if low_zeros(zint(a)) >= m or self.known(st, zint(a) % (1 << m) == 0): return True
        return False

    def bvbin(self, st, op, n, a, b, fl, loc):
        if not isz(a) and not isz(b):
            if op in ("add", "sub", "mul"):
                return self.wrap(st, {"add": a + b, "sub": a - b, "mul": a * b}[op], n)
            ua, ub = a % (1 << n), b % (1 << n)
            if op in ("and", "or", "xor"):
                return self.wrap(st, {"and": ua & ub, "or": ua | ub, "xor": ua ^ ub}[op], n)
            if op in ("shl", "lshr", "ashr") and ub < n:
                return self.wrap(st, {"shl": ua << ub, "lshr": ua >> ub, "ashr": a >> ub}[op], n)
            if op in ("shl", "lshr", "ashr"):
                # out-of-range shift: poison; any value
                return self.fresh("i%d" % n, "poison", st)
            if b != 0:
                if op == "udiv": return self.wrap(st, ua // ub, n)
                if op == "urem": return self.wrap(st, ua % ub, n)
                q = int(abs(a) // abs(b)) * (1 if (a >= 0) == (b > 0) else -1)
                return self.wrap(st, q if op == "sdiv" else a - b * q, n)
        A, B = self.bvc(a, n), self.bvc(b, n)
        if op in ("shl", "lshr", "ashr"):
            if isz(b):
                # an out-of-range amount gives an arbitrary value
                sh = {"shl": A << B, "lshr": z3.LShR(A, B), "ashr": A >> B}[op]
                ok = z3.simplify(z3.ULT(B, z3.BitVecVal(n, n)))
                if z3.is_true(ok) or self.known(st, ok): return z3.simplify(sh)
                return z3.If(ok, sh, z3.BitVec(self.fresh_name("poison"), n))
        if op in ("sdiv", "udiv", "srem", "urem"):
            self.prove(st, B != 0, "no division by zero at %s" % loc, "safety")
        if "nsw" in fl and self.check_overflow and op in ("add", "sub", "mul"):
            pass
        r = {"add": lambda: A + B, "sub": lambda: A - B, "mul": lambda: A * B, "and": lambda: A & B, "or": lambda: A | B,
             "xor": lambda: A ^ B, "shl": lambda: A << B, "lshr": lambda: z3.LShR(A, B), "ashr": lambda: A >> B,
             "sdiv": lambda: A / B, "udiv": lambda: z3.UDiv(A, B), "srem": lambda: z3.SRem(A, B), "urem": lambda: z3.URem(A, B)}[op]()
        r = z3.simplify(r)
        return r.as_signed_long() if z3.is_bv_value(r) else r

    def icmp(self, st, pred, t, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, VTab) or isinstance(b, VTab):
            return self.pcmp(st, pred, a, b)
        if t.k == "i" and t.n == 1:
            e = Eq(zb(a), zb(b)) if (isz(a) or isz(b)) else a == b
            if pred == "eq": return e
            if pred == "ne": return Not(e)
            raise Unsupported("icmp i1 " + pred)
        n = t.n
        if not isz(a) and not isz(b):
            if pred[0] == "u": a, b = a % (1 << n), b % (1 << n)
            return {"eq": a == b, "ne": a != b}.get(pred) if pred in ("eq", "ne") else \
                {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pred[1:]]
        if self.mode == "bv":
            A, B = self.bvc(a, n), self.bvc(b, n)
            r = {"eq": lambda: A == B, "ne": lambda: A != B, "slt": lambda: A < B, "sle": lambda: A <= B, "sgt": lambda: A > B, "sge": lambda: A >= B,
                 "ult": lambda: z3.ULT(A, B), "ule": lambda: z3.ULE(A, B), "ugt": lambda: z3.UGT(A, B), "uge": lambda: z3.UGE(A, B)}[pred]()
        else:
            if pred[0] == "u": a, b = self.uns(st, a, n), self.uns(st, b, n)
            A, B = zint(a), zint(b)
            r = {"eq": lambda: A == B, "ne": lambda: A != B, "lt": lambda: A < B, "le": lambda: A <= B, "gt": lambda: A > B, "ge": lambda: A >= B}[
                pred if pred in ("eq", "ne") else pred[1:]]()
        r = z3.simplify(r)
        return True if z3.is_true(r) else False if z3.is_false(r) else r

    def pcmp(self, st, pred, a, b):
        if isinstance(a, VTab) or isinstance(b, VTab): raise Unsupported("vtable comparison")
        if not isinstance(a, Ptr): a = self.dec(a)
        if not isinstance(b, Ptr): b = self.dec(b)
        if a.obj is b.obj or (isinstance(a.obj, SymObj) and a.obj == b.obj):
            x, y = self.off(a), self.off(b)
        else:
            if isinstance(a.obj, Obj) and isinstance(b.obj, Obj) and pred in ("eq", "ne"):
                return pred == "ne"
            for p, q in ((a, b), (b, a)):
                if p.obj is None and p.c == 0 and isinstance(q.obj, Obj) and pred in ("eq", "ne"): return pred == "ne"
            x, y = self.addr(a), self.addr(b)
        if self.mode == "bv" and (isz(x) or isz(y)):
            x, y = self.bvc(x, 64), self.bvc(y, 64)
            ops = {"ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT, "uge": z3.UGE}
            return (x == y) if pred == "eq" else (x != y) if pred == "ne" else ops[pred](x, y)
        if not isz(x) and not isz(y):
            return {"eq": x == y, "ne": x != y}[pred] if pred in ("eq", "ne") else {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]]
        x, y = zint(x), zint(y)
        r = z3.simplify({"eq": x == y, "ne": x != y}[pred] if pred in ("eq", "ne") else {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]])
        return True if z3.is_true(r) else False if z3.is_false(r) else r

    # ------------------------------------------------------------ floats
    def fconst(self, t, x):
        if self.fmode == "real":
            if x != x or x in (float("inf"), float("-inf")):
                return z3.Real({True: "NaN"}.get(x != x, "Inf" if x > 0 else "NegInf"))
            return simplest(x, t.k == "float")
        if self.fmode == "bits":
            import struct
            return struct.unpack("<q", struct.pack("<d", x))[0] if t.k == "double" else struct.unpack("<i", struct.pack("<f", x))[0]
        return z3.FPVal(x, z3.Float64() if t.k == "double" else z3.Float32())

    canon = ()
    int_canon = ()     # products that a contract gives a name: (factor, factor, name)

    def fbin(self, st, op, t, a, b):
        r = self.fbin0(st, op, t, a, b)
        if self.canon and self.fmode == "real" and isz(r):
            import poly
            if not hasattr(self, "canon_norm"): self.canon_norm = poly.Norm(self, st, self.sq_rules)
            self.canon_norm.st = st
            for p, rep in self.canon:
                if self.canon_norm.equal(r, p): return rep
                if self.canon_norm.equal(r, -p): return -rep
        return r

    def fbin0(self, st, op, t, a, b):
        if self.fmode == "bits":
            raise Unsupported("float arithmetic in bit mode")
        if self.fmode == "fp":
            rm = z3.RNE()
            return {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op](rm, a, b) if op != "frem" else z3.fpRem(a, b)
        self.assumed.add("floating-point arithmetic is treated as exact real arithmetic")
        if not isz(a) and not isz(b):
            a, b = Fraction(a), Fraction(b)
            if op == "fadd": return a + b
            if op == "fsub": return a - b
            if op == "fmul": return a * b
            if op == "fdiv" and b != 0: return a / b
        A, B = rv(a), rv(b)
        if op == "fadd": return B if same(a, Fraction(0)) else A if same(b, Fraction(0)) else A + B
        if op == "fsub": return A if same(b, Fraction(0)) else A - B
        if op == "fmul":
            if same(a, Fraction(1)): return B
            if same(b, Fraction(1)): return A
            if same(a, Fraction(0)) or same(b, Fraction(0)): return Fraction(0)
            return A * B
        if op == "fdiv": return A / B
        return self.uf("fmod", z3.RealSort(), z3.RealSort(), z3.RealSort())(A, B)

    def fcmp(self, st, pred, t, a, b):
        if pred in ("true", "false"): return pred == "true"
        if self.fmode == "bits": raise Unsupported("float comparison in bit mode")
        if self.fmode == "fp":
            un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            if pred == "ord": return z3.Not(un)
            if pred == "uno": return un
            f = {"eq": z3.fpEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "lt": z3.fpLT, "le": z3.fpLEQ, "ne": lambda x, y: z3.Not(z3.fpEQ(x, y))}[pred[1:]](a, b)
            return z3.And(z3.Not(un), f) if pred[0] == "o" else z3.Or(un, f)
        if pred == "ord": return True
        if pred == "uno": return False
        p = pred[1:]
        if not isz(a) and not isz(b):
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p]
        A, B = rv(a), rv(b)
        return {"eq": lambda: A == B, "ne": lambda: A != B, "lt": lambda: A < B, "le": lambda: A <= B, "gt": lambda: A > B, "ge": lambda: A >= B}[p]()

    def cast(self, st, op, t, a, tt, fl, loc):
        if op in ("bitcast", "addrspacecast"):
            if t.k in ("double", "float") and tt.k == "i" or t.k == "i" and tt.k in ("double", "float"):
                if self.fmode == "bits": return a
                if self.fmode == "fp":
                    if tt.k == "i": return z3.fpToIEEEBV(a)
                    return z3.fpBVToFP(self.bvc(a, t.n), z3.Float64() if tt.k == "double" else z3.Float32())
                raise Unsupported("bitcast float/int in real mode")
            return a
        if op == "ptrtoint":
            if isinstance(a, VTab): raise Unsupported("vtable to int")
            x = self.addr(a)
            if tt.n < 64: raise Unsupported("ptrtoint narrow")
            return x
        if op == "inttoptr": return self.dec(a)
        if isinstance(a, (Opaque,)): return a
        if op in ("trunc", "zext", "sext"):
            n, m = t.n, tt.n
            if n == 1:
                if op == "zext": return int(a) if isinstance(a, bool) else (ite(a, 1, 0) if self.mode == "int" else z3.If(a, z3.BitVecVal(1, m), z3.BitVecVal(0, m)))
                return (-int(a)) if isinstance(a, bool) else (ite(a, -1, 0) if self.mode == "int" else z3.If(a, z3.BitVecVal(-1, m), z3.BitVecVal(0, m)))
            if isinstance(a, Ptr): a = self.addr(a)
            if not isz(a):
                if op == "zext": return a % (1 << n)
                if op == "sext": return a
                return bool(a & 1) if m == 1 else self.wrap(st, a, m)
            if self.mode == "bv":
                if op == "zext": r = z3.ZeroExt(m - n, a)
                elif op == "sext": r = z3.SignExt(m - n, a)
                else: r = z3.Extract(m - 1, 0, a)
                if m == 1: return z3.simplify(r == 1)
                return z3.simplify(r)
            if op == "sext": return a
            if op == "zext":
                if "nneg" in fl: return a
                return self.uns(st, a, n)
            if m == 1:
                x = as01(a)
                if x is not None: return x
                if n == 8 and is_atom(a):
                    self.assumed.add("bool objects hold 0 or 1")
                    st.add(z3.And(a >= 0, a <= 1))
                    return a != 0
                return a % 2 == 1
            return self.wrap(st, a, m)
        if op in ("fptrunc", "fpext"):
            if self.fmode == "real": return a
            if self.fmode == "bits":
                raise Unsupported("fp conversion in bit mode")
            return z3.fpFPToFP(z3.RNE(), a, z3.Float64() if tt.k == "double" else z3.Float32())
        if op in ("sitofp", "uitofp"):
            if t.n == 1:
                a = (1 if op == "uitofp" else -1) * int(a) if isinstance(a, bool) else ite(a, 1 if op == "uitofp" else -1, 0)
            elif op == "uitofp": a = self.uns(st, a, t.n) if self.mode == "int" else a
            if self.fmode == "real":
                if self.mode != "int": raise Unsupported("int to real in bv mode")
                return Fraction(a) if not isz(a) else z3.ToReal(a)
            if self.fmode == "fp":
                if self.mode == "bv":
                    so = z3.Float64() if tt.k == "double" else z3.Float32()
                    A = self.bvc(a, t.n)
                    return z3.fpSignedToFP(z3.RNE(), A, so) if op == "sitofp" else z3.fpUnsignedToFP(z3.RNE(), A, so)
            raise Unsupported("int to float")
        if op in ("fptosi", "fptoui"):
            if self.fmode == "real":
                self.assumed.add("floating-point values converted to integers are in range")
                if not isz(a): return int(a) if a >= 0 else -int(-a)
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL: return a.arg(0)
                s = z3.simplify(a)
                if s.decl().kind() == z3.Z3_OP_TO_REAL: return s.arg(0)
                if z3.is_rational_value(s):
                    f = Fraction(s.numerator_as_long(), s.denominator_as_long())
                    return int(f) if f >= 0 else -int(-f)
                i = z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
                return i
            if self.fmode == "fp" and self.mode == "bv":
                return z3.fpToSBV(z3.RTZ(), a, z3.BitVecSort(tt.n)) if op == "fptosi" else z3.fpToUBV(z3.RTZ(), a, z3.BitVecSort(tt.n))
            raise Unsupported("float to int")
        raise Unsupported("cast " + op)

    # ------------------------------------------------------------ pointers
    def off(self, p):
        r = p.c
        for s, x in p.terms:
            if isz(x):
                if z3.is_bv(x): r = (x * s if s != 1 else x) + r if isz(r) or r != 0 else (x * s if s != 1 else x)
                else: r = r + (x * s if s != 1 else x) if isz(r) or r != 0 else (x * s if s != 1 else x)
            else: r = r + s * x
        return r

    def addr(self, p):
        if isinstance(p, VTab): raise Unsupported("address of vtable")
        if not isinstance(p, Ptr): return p
        o = self.off(p)
        if p.obj is None: return o
        b = p.obj.addr if isinstance(p.obj, Obj) else p.obj.e
        if not isz(b) and not isz(o): return b + o
        if not isz(o) and o == 0: return b
        r = z3.simplify(zint(b, o) + zint(o, b))
        if z3.is_int_value(r): return r.as_long()
        return r

    def dec(self, a):
        if isinstance(a, (Ptr, VTab, Opaque)): return a
        if isz(a):
            a2 = z3.simplify(a)
            if z3.is_int_value(a2): a = a2.as_long()
            elif z3.is_bv_value(a2): a = a2.as_long()
            else:
                # base + linear offset of a known object
                if z3.is_int(a2):
                    d, c = linear(a2)
                    c = int(c)
                    oid = (c - 0x100000000000) // 0x1000000000
                    rem = c - 0x100000000000 - oid * 0x1000000000
                    if oid in self.objs and c >= 0x100000000000:
                        return Ptr(self.objs[oid], rem, [(int(q), t) for t, q in d.values()])
                return Ptr(SymObj(a2))
        if a == 0: return NULL
        oid = (a - 0x100000000000) // 0x1000000000
        for cand, delta in ((oid, 0), (oid + 1, 0)):
            o = self.objs.get(cand)
            if o is not None and -0x100000 < a - o.addr < 0x800000000: return Ptr(o, a - o.addr)
        return Ptr(None, a)

    def new_obj(self, name, size=None, typ=None, kind="obj", lazy=True):
        o = Obj(name, size if size is not None else (sizeof(typ) if typ is not None else None), typ, kind, lazy=lazy)
        self.objs[o.id] = o
        return o

    def struct_obj(self, m, cls, name, readonly=False):
        """object of class/struct type cls (LLVM name, e.g. class.Trick::JobData), with lazily created unknown content"""
        t = None
        for mm in ([m] if m is not None else self.modules):
            for nm in (cls, "class." + cls, "struct." + cls):
                if nm in mm.types or nm in mm.typedefs:
                    t = mm.named(nm)
                    if t.k == "struct": break
                    t = None
            if t is not None: break
        if t is None: raise Unsupported("type %s not found" % cls)
        o = self.new_obj(name, sizeof(t), t, "obj")
        o.cls = cls.replace("class.", "").replace("struct.", "")
        o.readonly = readonly
        return o

    raw_pun = None      # (to bits, from bits): untyped memory holds 64-bit words, whatever they are read as

    def foff(self, cls, field):
        k = (cls, field)
        r = self._foff.get(k)
        if r is None: r = self._foff[k] = self._foff0(cls, field)
        return r

    def _foff0(self, cls, field):
        for mm in self.modules:
            f = mm.dwarf_fields(cls)
            if field in f: return f[field][0]
        raise Unsupported("field %s::%s not found" % (cls, field))

    def setf(self, st, o, field, v, kind=None, cls=None):
        off = self.foff(cls or o.cls, field)
        if kind is None: kind = "ptr" if isinstance(v, (Ptr, VTab)) else "i32"
        st.cells(o, True)[off] = (ksize(kind), kind, v)

    def getf(self, st, o, field, kind, cls=None):
        off = self.foff(cls or o.cls, field)
        return self.load_cell(st, o, off, kind, ksize(kind), "spec")

    def gep(self, st, stt, p, idx):
        if isinstance(p, VTab):
            tot = 0
            if len(idx) == 1 and not isz(idx[0][1]):
                return VTab(p.p, (p.slot or 0) + idx[0][1] * sizeof(stt) // 8)
            raise Unsupported("gep on vtable")
        if isinstance(p, Opaque): return p
        if not isinstance(p, Ptr): p = self.dec(p)
        c, terms = p.c, list(p.terms)
        tk = p.tk

        def addterm(s, x):
            nonlocal c
            if not isz(x): c += s * x; return
            if self.mode == "int":
                d, k = linear(z3.simplify(x))
                c += s * int(k)
                if not d: return
                # keep a compact index
                x2 = from_linear(d, 0)
                g = 0
                for _, q in d.values(): g = math.gcd(g, int(q))
                if g > 1:
                    x2 = from_linear({kk: (t, q / g) for kk, (t, q) in d.items()}, 0)
                    s = s * g
                x = x2
            for i, (s0, x0) in enumerate(terms):
                if s0 == s:
                    y = z3.simplify(x0 + x)
                    if z3.is_int_value(y) or z3.is_bv_value(y):
                        c += s * (y.as_long() if z3.is_int_value(y) else y.as_signed_long()); del terms[i]
                    else: terms[i] = (s, y)
                    return
            terms.append((s, x))
        t = stt
        first = True
        if stt.k == "struct":
            tk = ("S", tname(stt.name), 0, stt)
        elif stt.k in ("double", "float", "ptr") or (stt.k == "i" and stt.n > 8):
            tk = ("P", kind_of(stt)) if (tk is None or tk[0] == "P") else ("E", tk, kind_of(stt)) if tk[0] == "S" else tk
        for it, iv in idx:
            if it.k == "i" and it.n < 64 and isz(iv) and z3.is_bv(iv): iv = z3.SignExt(64 - it.n, iv)
            if first:
                if sizeof(t): addterm(sizeof(t), iv)
                first = False
                continue
            if t.k == "struct":
                if isz(iv): raise Unsupported("symbolic struct index")
                fo = field_off(t, iv)
                c += fo
                f = t.fs[iv]
                if f.k == "struct" and not (f.name or "").startswith(("union.",)):
                    tk = ("S", tname(f.name), 0, f)
                else:
                    if tk and tk[0] == "S" and tk[3] is t: tk = ("S", tname(t.name), fo, t)
                    else: tk = ("S", tname(t.name), fo, t)
                t = f
            elif t.k == "arr":
                es = sizeof(t.e)
                addterm(es, iv)
                t = t.e
                if t.k == "struct": tk = ("S", tname(t.name), 0, t)
                elif tk and tk[0] == "S":
                    if not isz(iv): tk = ("S", tk[1], tk[2] + es * iv, tk[3])
                    else: tk = ("E", tk, es)
                elif tk is None: tk = ("P", kind_of(t)) if t.k not in ("arr",) else None
            else:
                raise Unsupported("gep into %r" % t)
        return Ptr(p.obj, c, terms, tk)

    # ------------------------------------------------------------ memory access
    def region_of(self, st, o, p, size):
        """(region, index, offset in element) for an access to an array part, or None"""
        for r in o.regions:
            if all(not isz(x) or s % r.stride == 0 for s, x in p.terms):
                d = p.c - r.start
                conc = not p.terms
                cnt = r.count
                if conc:
                    if d < 0: continue
                    if cnt is not None and not isz(cnt) and d >= r.stride * cnt: continue
                idx = d // r.stride
                for s, x in p.terms: idx = idx + (x if s == r.stride else x * (s // r.stride))
                if isz(idx):
                    idx = z3.simplify(idx)
                    if z3.is_int_value(idx): idx = idx.as_long()
                    elif z3.is_bv_value(idx): idx = idx.as_signed_long()
                return r, idx, d % r.stride
        return None

    def ensure_region(self, st, o, p, size, kind):
        """objects of symbolic size become a homogeneous array on first use"""
        if o.regions or (not isz(o.size) and not p.terms): return
        if o.size is not None and not isz(o.size): return
        stride = None
        for s, x in p.terms:
            stride = s if stride is None else math.gcd(stride, s)
        if p.tk is not None and p.tk[0] == "S" and o.typ is None and p.tk[3].name:
            stride = sizeof(p.tk[3])
        if stride is None or stride < size: stride = size
        cnt = None
        if o.size is not None:
            cnt = z3.simplify(zint(o.size) / stride) if self.mode == "int" else z3.UDiv(o.size, z3.BitVecVal(stride, 64))
            if self.mode == "int":
                d, c = linear(z3.simplify(zint(o.size)))
                if all((q / stride).denominator == 1 for _, q in d.values()) and (c / stride).denominator == 1:
                    cnt = from_linear({k: (x, q / stride) for k, (x, q) in d.items()}, c / stride)
        o.regions.append(Region(0, stride, cnt))

    def arr_get(self, st, o, r, c, kind):
        k = (o.id, r.start, r.stride, c)
        a = st.arrs.get(k)
        if a is None:
            key = ("arr",) + k
            a = self._heapbase.get(key)
            if a is None:
                a = self.new_arr("%s[]%s" % (o.name, ("." + str(c)) if c else ""), kind)
                self._heapbase[key] = a
            st.arrs[k] = a
        return a

    def sort_of(self, kind):
        if kind == "i1": return z3.BoolSort()
        if kind in ("double", "float"):
            if self.fmode == "real": return z3.RealSort()
            if self.fmode == "bits": return z3.BitVecSort(kbits(kind))
            return z3.Float64() if kind == "double" else z3.Float32()
        if self.mode == "bv": return z3.BitVecSort(64 if kind == "ptr" else int(kind[1:]))
        return z3.IntSort()

    def idx_sort(self):
        return z3.IntSort() if self.mode == "int" else z3.BitVecSort(64)

    def new_arr(self, name, kind):
        a = Arr(self.fresh_name(name), self.idx_sort(), self.sort_of(kind))
        a.kind = kind
        return a

    def idx(self, i):
        if isz(i): return i
        return z3.IntVal(i) if self.mode == "int" else z3.BitVecVal(i, 64)

    def from_arr(self, st, kind, v):
        if kind == "ptr": return self.dec(v)
        if kind == "i1": return v
        self.range_fact(st, kind, v)
        if isz(v):
            if z3.is_int_value(v): return v.as_long()
            if z3.is_bv_value(v) and self.fmode != "bits": return v.as_signed_long()
        return v

    def to_arr(self, kind, v):
        if isinstance(v, VTab): return z3.IntVal(-1)
        if isinstance(v, Opaque): return self.symbol_raw(kind)
        if kind == "ptr":
            a = self.addr(v)
            return a if isz(a) else self.idx(a)
        return v

    def symbol_raw(self, kind):
        v = self.fresh(kind, "opq")
        return self.addr(v) if isinstance(v, Ptr) else v

    def in_bounds(self, st, o, p, size, loc):
        if o.size is None or not self.safety: return
        off = self.off(p)
        if not isz(off) and not isz(o.size):
            if 0 <= off and off + size <= o.size: return
            self.prove(st, False, "access inside %s (offset %d, %d bytes) at %s" % (o.name, off, size, loc), "safety", assume=False)
            raise Infeasible()
        if self.mode == "int":
            g = z3.And(zint(off) >= 0, zint(off) + size <= zint(o.size))
        else:
            off, sz = self.bvc(off, 64), self.bvc(o.size, 64)
            g = z3.And(z3.ULE(off, sz), z3.UGE(sz - off, size))
        if self.recording: self.prove(st, g, "access inside %s at %s" % (o.name, loc), "safety")
        else: st.add(g)

    def heap_key(self, p, kind):
        tk = p.tk
        if tk is None:
            return ("P", kind), 0
        if tk[0] == "P": return ("P", kind), 0
        if tk[0] == "E": return ("E", tk[1][1] if tk[1][0] == "S" else str(tk[1]), tk[1][2] if tk[1][0] == "S" else 0, kind), 0
        _, nm, delta, t = tk
        # go to the innermost struct
        ow, ob, fo, sc = innermost(t, delta)
        if sc is None and sizeof(t) <= delta: raise Unsupported("heap access outside %s" % nm)
        if sc is not None and sc.k == "struct": raise Unsupported("struct access")
        name = tname(ow.name) if ow is not None else "?"
        return ("F", name, fo), delta - ob if ow is t else delta - ob

    def heap_index(self, p, key, delta_in_t):
        """address of the innermost struct holding the field"""
        if key[0] in ("P", "E"): return self.addr(p)
        fo = key[2]
        q = Ptr(p.obj, p.c - fo, p.terms)
        return self.addr(q)

    def heap_arr(self, st, key, kind):
        a = st.heap.get(key)
        if a is None:
            a = self._heapbase.get(key)
            if a is None:
                nm = key[1] if key[0] == "P" else "%s.%s" % (key[1], key[2])
                a = self.new_arr("H:" + nm, kind)
                self._heapbase[key] = a
                self.kinds_seen[key] = kind
            st.heap[key] = a
        return a

    def nonnull(self, st, p, loc):
        if p.obj is None:
            if self.recording:
                self.prove(st, False, "no access through a null/invalid pointer at %s" % loc, "safety", assume=False)
            raise Infeasible()

    def resolve(self, st, p):
        """concrete object behind a symbolic pointer when the path fixes it"""
        e = p.obj.e
        leaves = ite_leaves(e)
        if leaves and any(not isz(x) for x in leaves):
            for x in leaves:
                v = x if isz(x) else self.idx(x)
                d = self.decide(st, e == v)
                if d is True:
                    q = self.dec(x)
                    return Ptr(q.obj, q.c + p.c, q.terms + p.terms, p.tk) if isinstance(q, Ptr) else q
                if d is None: raise Fork(e == v)
        return p

    def load(self, st, p, t, loc="?", isvt=False):
        if isinstance(p, VTab): return VTab(p.p, ("fn", p.slot or 0))
        if isinstance(p, Opaque): return Opaque("load")
        if not isinstance(p, Ptr): p = self.dec(p)
        if t.k in ("struct", "arr"): return self.load_agg(st, p, t, loc)
        kind = kind_of(t)
        if t.k == "x86_fp80": raise Unsupported("x87")
        if kind == "i1": kind = "i8"
        size = ksize(kind)
        if p.obj is None: self.nonnull(st, p, loc)
        if isinstance(p.obj, SymObj):
            p = self.resolve(st, p)
        if p.obj is None: self.nonnull(st, p, loc)
        if isinstance(p.obj, SymObj):
            key, d = self.heap_key(p, kind)
            if self.raw_pun and key == ("P", "double"): return self.raw_pun[1](st, self.load(st, p, ir.T("i", 64), loc))
            a = self.heap_arr(st, key, kind)
            i = self.heap_index(p, key, d)
            hk = self.kinds_seen.get(key, kind)
            v = a.get(self.idx(i))
            if hk != kind and not (kbits(hk) == kbits(kind) and "ptr" in (hk, kind) and self.mode != "fp"):
                raise Unsupported("heap type punning %s/%s at %s" % (hk, kind, loc))
            return self.from_arr(st, kind, v)
        o = p.obj
        if o.id in st.freed:
            if self.recording: self.prove(st, False, "no access to freed %s at %s" % (o.name, loc), "safety", assume=False)
            raise Infeasible()
        if o.kind == "func": raise Unsupported("load from function")
        self.in_bounds(st, o, p, size, loc)
        self.ensure_region(st, o, p, size, kind)
        rg = self.region_of(st, o, p, size)
        if rg is not None:
            r, idx, c = rg
            a = self.arr_get(st, o, r, c, kind)
            k2 = getattr(a, "kind", kind)
            v = a.get(self.idx(idx))
            if k2 != kind:
                if ksize(k2) == size and {k2, kind} <= {"ptr", "i64"}: pass
                else: raise Unsupported("array type punning %s as %s" % (k2, kind))
            return self.from_arr(st, kind, v)
        if p.terms: return self.load_sym_cells(st, o, p, kind, size, loc)
        return self.load_cell(st, o, p.c, kind, size, loc)

    def load_sym_cells(self, st, o, p, kind, size, loc):
        """symbolic index into an object kept as cells: case split over the possible offsets"""
        if o.size is None or isz(o.size): raise Unsupported("symbolic offset into %s" % o.name)
        offs = self.sym_offsets(o, p, size)
        off = self.off(p)
        res = None
        for k in offs:
            c = off == (k if self.mode == "int" else z3.BitVecVal(k, 64))
            d = z3.simplify(c)
            if z3.is_false(d): continue
            if len(offs) > 8 and not self.feasible(st, c): continue
            v = self.load_cell(st, o, k, kind, size, loc)
            if kind == "ptr": v = self.addr(v)
            elif self.mode == "bv" and kind[0] == "i": v = self.bvc(v, kbits(kind))
            res = v if res is None else ite(c, v, res)
        if res is None: raise Infeasible()
        return self.dec(res) if kind == "ptr" else res

    def sym_offsets(self, o, p, size):
        g = 0
        for s, x in p.terms: g = math.gcd(g, s)
        lo = p.c % g
        r = [k for k in range(lo, o.size - size + 1, g)]
        if len(r) > 300: raise Unsupported("symbolic offset over %d cells of %s" % (len(r), o.name))
        return r

    def load_cell(self, st, o, off, kind, size, loc):
        d = st.cells(o)
        x = d.get(off)
        if x is not None:
            sz, k, v = x
            if sz == size:
                if k == kind: return v
                return self.repun(st, k, kind, v, o, off, loc)
        # overlap with other cells?
        ov = [(q, y) for q, y in d.items() if q < off + size and off < q + y[0]] if x is not None or self._may_overlap(d, off, size) else []
        if ov:
            return self.load_bytes(st, o, off, kind, size, loc)
        # uninitialised
        if o.kind == "global" and o.init is not None:
            v = self.const_at(o, off, kind)
            if v is not None: return v
        if o.kind == "zero":
            v = NULL if kind == "ptr" else (Fraction(0) if kind in ("double", "float") and self.fmode == "real" else 0)
            if kind in ("double", "float") and self.fmode == "fp": v = z3.FPVal(0.0, self.sort_of(kind))
            d = st.cells(o, True); d[off] = (size, kind, v)
            return v
        if not o.lazy:
            v = self.fresh(kind, o.name + ".undef", st)
            d = st.cells(o, True); d[off] = (size, kind, v)
            return v
        key = ("cell", o.id, off, kind)
        v = self._heapbase.get(key)
        if v is None:
            nm = o.name + self.fieldname(o, off)
            st2 = State()
            v = self.symbol(kind, self.fresh_name(nm), st2)
            self._heapbase[key] = v
            self.inputs.append((nm, kind, v))
        if self.mode == "int":
            if isinstance(v, Ptr) and isinstance(v.obj, SymObj): st.add(v.obj.e >= 0)
            else: self.range_fact(st, kind, v)
        d = st.cells(o, True)
        d[off] = (size, kind, v)
        return v

    def _may_overlap(self, d, off, size):
        for k in range(off - 7, off + size):
            if k != off and k in d and k + d[k][0] > off: return True
        for k, y in d.items():
            if y[0] > 8 and k < off + size and off < k + y[0]: return True
        return False

    def repun(self, st, k, kind, v, o, off, loc):
        if k == kind: return v
        if isinstance(v, Opaque): return v
        if {k, kind} == {"ptr", "i64"}:
            return self.dec(v) if kind == "ptr" else self.addr(v)
        if k in ("double", "float") or kind in ("double", "float"):
            if self.fmode == "bits": return v
            if not isz(v) and v == 0: return Fraction(0) if self.fmode == "real" and kind in ("double", "float") else 0
            if self.fmode == "fp":
                if k in ("double", "float"): return z3.fpToIEEEBV(v)
                return z3.fpBVToFP(self.bvc(v, kbits(k)), self.sort_of(kind))
            raise Unsupported("type punning %s/%s in %s+%d at %s" % (k, kind, o.name, off, loc))
        return v

    def to_bits(self, kind, v):
        n = kbits(kind)
        if isinstance(v, Ptr): v = self.addr(v)
        if kind in ("double", "float") and self.fmode == "fp": return z3.fpToIEEEBV(v)
        if isinstance(v, bool): v = int(v)
        return self.bvc(v, n)

    def from_bits(self, kind, b):
        b = z3.simplify(b)
        if kind == "ptr": return self.dec(b)
        if kind in ("double", "float") and self.fmode == "fp": return z3.fpBVToFP(b, self.sort_of(kind))
        if z3.is_bv_value(b): return b.as_signed_long()
        return b

    def load_bytes(self, st, o, off, kind, size, loc):
        if self.mode != "bv":
            d = st.cells(o)
            # all-zero bytes
            cells = [(q, y) for q, y in d.items() if q < off + size and off < q + y[0]]
            if all((not isz(y[2]) and not isinstance(y[2], (Ptr, VTab, Opaque)) and y[2] == 0) or (isinstance(y[2], Ptr) and y[2].same(NULL)) for q, y in cells) \
                    and sum(min(q + y[0], off + size) - max(q, off) for q, y in cells) == size:
                return NULL if kind == "ptr" else (Fraction(0) if kind in ("double", "float") else 0)
            if all(not isz(y[2]) and not isinstance(y[2], (Ptr, VTab, Opaque, Fraction)) for q, y in cells):
                bs = bytearray(size); have = 0
                for q, y in cells:
                    raw = int(y[2]).to_bytes(y[0], "little", signed=int(y[2]) < 0)
                    for i, b in enumerate(raw):
                        if off <= q + i < off + size: bs[q + i - off] = b; have += 1
                if have == size and kind[0] == "i": return int.from_bytes(bs, "little", signed=True)
            # a narrower read of a wider integer cell
            for q, y in cells:
                if q <= off and off + size <= q + y[0] and y[1][0] == "i" and kind[0] == "i":
                    x = y[2]
                    if q != off: x = zint(x) / (1 << (8 * (off - q)))
                    return self.wrap(st, x, 8 * size)
            raise Unsupported("mixed-size access to %s+%d (%s) at %s" % (o.name, off, kind, loc))
        bs = [self.byte_at(st, o, off + i, loc) for i in range(size)]
        b = z3.Concat(*reversed(bs)) if size > 1 else bs[0]
        return self.from_bits(kind, b)

    def byte_at(self, st, o, off, loc):
        d = st.cells(o)
        for q in range(off, off - 17, -1):
            y = d.get(q)
            if y is not None and q + y[0] > off:
                if isinstance(y[2], Opaque): raise Unsupported("opaque bytes")
                b = self.to_bits(y[1], y[2])
                i = off - q
                return z3.simplify(z3.Extract(8 * i + 7, 8 * i, b)) if b.size() > 8 else b
        v = self.load_cell(st, o, off, "i8", 1, loc)
        return self.bvc(v, 8)

    def store(self, st, p, t, v, loc="?"):
        if isinstance(p, Opaque): return
        if not isinstance(p, Ptr): p = self.dec(p)
        if t.k in ("struct", "arr"): return self.store_agg(st, p, t, v, loc)
        if t.k == "vec": raise Unsupported("vector store")
        if t.k == "x86_fp80": raise Unsupported("x87")
        kind = kind_of(t)
        if kind == "i1":
            kind = "i8"; v = ite(v, 1, 0) if self.mode == "int" or isinstance(v, bool) else z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        size = ksize(kind)
        if p.obj is None: self.nonnull(st, p, loc)
        if isinstance(p.obj, SymObj): p = self.resolve(st, p)
        if p.obj is None: self.nonnull(st, p, loc)
        if isinstance(p.obj, SymObj):
            key, d = self.heap_key(p, kind)
            if self.raw_pun and key == ("P", "double"): return self.store(st, p, ir.T("i", 64), self.raw_pun[0](st, v), loc)
            a = self.heap_arr(st, key, kind)
            hk = self.kinds_seen.get(key, kind)
            if hk != kind: raise Unsupported("heap type punning (store) %s/%s" % (hk, kind))
            i = self.heap_index(p, key, d)
            na = ArrStore(a, self.idx(i), self.to_arr(kind, v)); na.kind = kind
            st.heap[key] = na
            self.log_write(st, ("heap", key, i))
            return
        o = p.obj
        if o.id in st.freed:
            if self.recording: self.prove(st, False, "no access to freed %s at %s" % (o.name, loc), "safety", assume=False)
            raise Infeasible()
        if o.readonly and self.recording:
            self.prove(st, False, "%s is not written (store at %s)" % (o.name, loc), "frame", assume=False)
        self.in_bounds(st, o, p, size, loc)
        self.ensure_region(st, o, p, size, kind)
        rg = self.region_of(st, o, p, size)
        if rg is not None:
            r, idx, c = rg
            a = self.arr_get(st, o, r, c, kind)
            if getattr(a, "kind", kind) != kind and not {a.kind, kind} <= {"ptr", "i64"}:
                raise Unsupported("array type punning (store) %s as %s" % (a.kind, kind))
            na = ArrStore(a, self.idx(idx), self.to_arr(kind, v)); na.kind = getattr(a, "kind", kind)
            st.arrs[(o.id, r.start, r.stride, c)] = na
            return
        if p.terms:
            offs = self.sym_offsets(o, p, size)
            off = self.off(p)
            for k in offs:
                c = off == (k if self.mode == "int" else z3.BitVecVal(k, 64))
                if z3.is_false(z3.simplify(c)): continue
                old = self.load_cell(st, o, k, kind, size, loc)
                if kind == "ptr": nv = self.dec(ite(c, self.to_arr(kind, v), self.to_arr(kind, old)))
                else: nv = ite(c, v, old)
                self.store_cell(st, o, k, kind, size, nv)
            return
        self.store_cell(st, o, p.c, kind, size, v)

    def log_write(self, st, w):
        pass

    def store_cell(self, st, o, off, kind, size, v):
        d = st.cells(o, True)
        x = d.get(off)
        if (x is None or x[0] != size) and (x is not None or self._may_overlap(d, off, size)):
            ov = [(q, y) for q, y in d.items() if q < off + size and off < q + y[0]]
            for q, y in ov:
                if off <= q and q + y[0] <= off + size:
                    del d[q]; continue
                # partial overlap: split into bytes
                if self.mode == "bv" and not isinstance(y[2], Opaque):
                    b = self.to_bits(y[1], y[2])
                    del d[q]
                    for i in range(y[0]):
                        if not (off <= q + i < off + size):
                            d[q + i] = (1, "i8", z3.simplify(z3.Extract(8 * i + 7, 8 * i, b)))
                elif not isz(y[2]) and not isinstance(y[2], (Ptr, VTab, Opaque, Fraction)):
                    raw = (int(y[2]) % (1 << (8 * y[0]))).to_bytes(y[0], "little")
                    del d[q]
                    for i in range(y[0]):
                        if not (off <= q + i < off + size):
                            bb = raw[i]; d[q + i] = (1, "i8", bb - 256 if bb > 127 else bb)
                else:
                    raise Unsupported("partial overwrite of %s+%d" % (o.name, q))
        d[off] = (size, kind, v)

    def leaves(self, t, off=0):
        if t.k == "struct":
            for i, f in enumerate(t.fs):
                for x in self.leaves(f, off + field_off(t, i)): yield x
        elif t.k == "arr":
            es = sizeof(t.e)
            if t.n > 4096: raise Unsupported("large aggregate")
            for i in range(t.n):
                for x in self.leaves(t.e, off + i * es): yield x
        else:
            yield off, t

    def load_agg(self, st, p, t, loc):
        return ["agg", t, [self.load(st, Ptr(p.obj, p.c + o, p.terms), lt, loc) for o, lt in self.leaves(t)]]

    def store_agg(self, st, p, t, v, loc):
        if isinstance(v, Opaque): raise Unsupported("store of opaque aggregate")
        if isinstance(v, list) and v and v[0] == "agg":
            for (o, lt), x in zip(self.leaves(t), v[2]):
                self.store(st, Ptr(p.obj, p.c + o, p.terms), lt, x, loc)
            return
        raise Unsupported("aggregate store")

    def fieldname(self, o, off):
        if o.cls and self.modules:
            for m in self.modules:
                f = m.dwarf_fields(o.cls)
                best = None
                for n, (fo, bt) in f.items():
                    if fo <= off and (best is None or fo > best[1]): best = (n, fo)
                if best: return "." + best[0] + ("" if best[1] == off else "+%d" % (off - best[1]))
        return "+%d" % off

    # constants in globals
    def const_at(self, o, off, kind):
        v = self._const_walk(o.init, o.typ, off, kind, o.module)
        return v

    def _const_walk(self, init, t, off, kind, m):
        if init is None: return None
        if init[0] == "zero":
            if kind == "ptr": return NULL
            if kind in ("double", "float"): return Fraction(0) if self.fmode == "real" else (0 if self.fmode == "bits" else z3.FPVal(0.0, self.sort_of(kind)))
            return 0
        if init[0] == "undef": return None
        if init[0] == "agg":
            if t.k == "arr":
                es = sizeof(t.e); i = off // es
                return self._const_walk(init[1][i], t.e, off - i * es, kind, m)
            for i, f in enumerate(t.fs):
                fo = field_off(t, i)
                if fo <= off < fo + sizeof(f): return self._const_walk(init[1][i], f, off - fo, kind, m)
            return None
        if off != 0: return None
        if t.k in ("double", "float") and kind == t.k or t.k == "i" and kind[0] == "i" or t.k == "ptr" and kind == "ptr":
            if t.k == "i" and kbits(kind) != t.n: return None
            return self.const(init, t, m)
        return None

    def global_obj(self, name, m):
        o = self.globals_.get(name)
        if o is not None: return o
        fn = self.find_fn(name)
        g = None
        if fn is None:
            for mm in [m] + self.modules:
                gg = mm.global_def(name)
                if gg is not None and (g is None or g[0] is PTR and gg[3] is False):
                    if g is None or (g[1] is None and gg[1] is not None): g, gm = gg, mm
        if g is None:
            o = self.new_obj("@" + name, None, None, "func")
            o.fn = name
        else:
            t, init, const, ext = g
            try: sz = sizeof(t)
            except ir.IRError: sz = None
            o = self.new_obj("@" + name, sz, t, "global")
            o.init = init if const else None
            o.module = gm
            o.const = const
            o.readonly = False
            o.ginit = init
        self.globals_[name] = o
        return o

    # ------------------------------------------------------------ operand evaluation
    def const(self, v, t, m):
        k = v[0]
        if k == "c":
            x = v[2]
            if v[1].k == "i":
                if v[1].n == 1: return bool(x)
                n = v[1].n
                x %= 1 << n
                return x - (1 << n) if x >= 1 << (n - 1) else x
            if v[1].k in ("double", "float"): return self.fconst(v[1], x)
            if v[1].k == "ptr": return NULL
            if v[1].k == "x86_fp80": return Opaque("x87")
            return x
        if k == "g": return Ptr(self.global_obj(v[1], m))
        if k == "undef":
            if t.k in ("struct", "arr"):
                return ["agg", t, [Opaque("undef") for _ in self.leaves(t)]]
            if t.k == "i" and self.mode == "int" and t.n > 1:
                self.assumed.add("uninitialised integers hold some value of their type")
                return z3.Int(self.fresh_name("undef"))
            if t.k in ("i", "double", "float"):
                v = self.fresh(kind_of(t), "undef")
                return v
            return Opaque("undef")
        if k == "zero":
            if t.k in ("struct", "arr"):
                return ["agg", t, [self.const(("zero", lt), lt, m) for _, lt in self.leaves(t)]]
            if t.k == "ptr": return NULL
            if t.k in ("double", "float"): return self.fconst(t, 0.0)
            if t.k == "i" and t.n == 1: return False
            if t.k == "i": return 0
        if k == "cgep":
            base = self.const(v[2], PTR, m)
            return self.gep(State(), v[1], base, [(it, self.const(iv, it, m)) for it, iv in v[3]])
        if k == "ccast":
            return self.cast(State(), v[1], v[2], self.const(v[3], v[2], m), v[4], (), "const")
        if k == "agg":
            return ["agg", t, self._flat(v, t, m)]
        if k == "cbin":
            a, b = self.const(v[3], v[2], m), self.const(v[4], v[2], m)
            return self.binop(State(), v[1], v[2], a, b, (), "const")
        raise Unsupported("constant %r" % (v,))

    def _flat(self, v, t, m):
        if t.k == "arr":
            r = []
            for x in v[1]: r += self._flat(x, t.e, m) if t.e.k in ("arr", "struct") else [self.const(x, t.e, m)]
            return r
        if t.k == "struct":
            r = []
            for x, f in zip(v[1], t.fs): r += self._flat(x, f, m) if f.k in ("arr", "struct") and x[0] == "agg" else (
                self.const(x, f, m)[2] if f.k in ("arr", "struct") else [self.const(x, f, m)])
            return r
        return [self.const(v, t, m)]

    def val(self, env, v, t, m):
        if v[0] == "l":
            try: return env[v[1]]
            except KeyError: raise Unsupported("undefined local %" + v[1])
        return self.const(v, t, m)

    # ------------------------------------------------------------ running functions
    def call(self, st, fn, args, depth=0):
        """run function body; list of Outcome"""
        if depth > 60: raise Unsupported("call depth")
        ir.loops(fn)
        fr = Frame(fn, depth, args)
        env = {}
        for (t, n, a), v in zip(fn.params, args):
            if isinstance(a.get("byval"), str) and isinstance(v, Ptr):
                o = self.new_obj("byval", None); o = v.obj
            env[n] = v
        if fn.va: env["...va"] = list(args[len(fn.params):])
        self.inlined.add(fn.name)
        st_mark = Obj._n
        outs = self.region(fr, [(st, env, fn.entry, None, 0)], None)
        res = []
        for o in outs:
            if o[0] == "ret": res.append(Outcome("ret", o[1], o[2]))
            elif o[0] == "throw": res.append(Outcome("throw", o[1], o[2]))
            elif o[0] == "halt": res.append(Outcome("halt", o[1], o[2]))
            else: raise Unsupported("stray " + o[0])
        if self.merge_calls and len(res) > 1: res = self.merge(res, st_mark)
        return res

    merge_calls = False

    def merge(self, res, mark):
        """returns of a call whose states differ in numbers only become one, with conditional values"""
        out = []
        for o in res:
            for i, p in enumerate(out):
                m = self.merge2(p, o, mark)
                if m is not None: out[i] = m; break
            else: out.append(o)
        return out

    def merge2(self, p, o, mark):
        if p.kind != "ret" or o.kind != "ret": return None
        a, b = p.st, o.st
        if a.freed != b.freed or len(a.qpc) != len(b.qpc) or any(x is not y for x, y in zip(a.qpc, b.qpc)): return None
        for d in ("arrs", "heap", "ghost"):
            x, y = getattr(a, d), getattr(b, d)
            if set(x) != set(y) or any(x[k] is not y[k] for k in x): return None
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]: n += 1
        ca = z3.And(*[zb(x) for x in a.pc[n:]]) if len(a.pc) > n else z3.BoolVal(True)
        cb = z3.And(*[zb(x) for x in b.pc[n:]]) if len(b.pc) > n else z3.BoolVal(True)

        x, y = (a.pc[n], b.pc[n]) if len(a.pc) > n and len(b.pc) > n else (None, None)
        if x is None or not (z3.simplify(z3.Not(zb(x))).eq(z3.simplify(zb(y)))):
            # the two are not known to exclude each other: either may be the case
            sel = z3.Bool(self.fresh_name("path")); ca, cb = z3.And(sel, ca), z3.And(z3.Not(sel), cb)
        else: sel = None
        cond = ca if sel is None else sel

        def val(x, y):
            if x is None and y is None: return None
            if same(x, y): return x
            if any(isinstance(v, (Ptr, VTab, Opaque)) or v is None for v in (x, y)): raise KeyError
            if not isz(x) and not isz(y):
                if isinstance(x, bool) or isinstance(y, bool): return z3.If(cond, z3.BoolVal(bool(x)), z3.BoolVal(bool(y)))
                if not (isinstance(x, int) and isinstance(y, int)) : return z3.If(cond, rv(x), rv(y))
                if self.mode != "int": raise KeyError
                return z3.If(cond, z3.IntVal(x), z3.IntVal(y))
            x, y = (x if isz(x) else self.like(x, y)), (y if isz(y) else self.like(y, x))
            if x.sort() != y.sort(): raise KeyError
            return z3.If(cond, x, y)
        try:
            v = val(p.val, o.val)
            s = a.fork()
            for oid in set(a.mem) | set(b.mem):
                x, y = a.mem.get(oid, {}), b.mem.get(oid, {})
                if x is y: continue
                ob = self.objs.get(oid)
                if ob is not None and ob.kind == "stack" and ob.id > mark: continue
                if set(x) != set(y): return None
                d = {}
                for k in x:
                    if x[k][:2] != y[k][:2]: return None
                    d[k] = (x[k][0], x[k][1], val(x[k][2], y[k][2]))
                s.mem[oid] = d; s.owned.add(oid)
        except (KeyError, z3.Z3Exception): return None
        s.pc = a.pc[:n] + [z3.Or(ca, cb)]
        s.seen = a.seen & b.seen
        return Outcome("ret", s, v)

    def like(self, c, t):
        """constant c in the sort of t"""
        k = t.sort().kind()
        if k == z3.Z3_INT_SORT: return z3.IntVal(int(c))
        if k == z3.Z3_REAL_SORT: return rv(c)
        if k == z3.Z3_BOOL_SORT: return z3.BoolVal(bool(c))
        if k == z3.Z3_BV_SORT: return z3.BitVecVal(int(c), t.size())
        raise KeyError

    def region(self, fr, work, loop, first=True):
        outs = []
        loops = fr.fn.loops
        start = first
        while work:
            st, env, blk, prev, idx = work.pop()
            self.paths += 1
            if self.paths > self.path_limit: raise PathBudget("more than %d path segments in %s" % (self.path_limit, fr.fn.name))
            if self.deadline and time.time() > self.deadline: raise PathBudget("time budget exceeded in %s" % fr.fn.name)
            if idx == 0 and loop is not None and not (start and blk == loop.header):
                if blk == loop.header:
                    outs.append(("back", st, env, prev)); continue
                if blk not in loop.body:
                    outs.append(("exit", st, env, blk, prev)); continue
            if idx == 0:
                L = loops.get(blk)
                if L is not None and not (loop is L and start):
                    for o in self.loop(fr, st, env, L, prev):
                        if o[0] == "exit": work.append((o[1], o[2], o[3], o[4], 0))
                        else: outs.append(o)
                    continue
            skip_phi = start and loop is not None and blk == loop.header
            start = False if loop is not None and blk == loop.header else start
            self.block(fr, st, env, blk, prev, idx, skip_phi, work, outs)
        return outs

    def phis(self, fr, st, env, blk, prev):
        insts = fr.fn.module.insts(fr.fn, fr.fn.blocks[blk])
        vals = []
        for x in insts:
            if x["op"] != "phi": break
            for v, b in x["inc"]:
                if b == prev:
                    vals.append((x["res"], x["t"], self.val(env, v, x["t"], fr.fn.module))); break
            else: raise Unsupported("phi without edge")
        return vals

    def block(self, fr, st, env, blk, prev, idx, skip_phi, work, outs):
        m = fr.fn.module
        insts = m.insts(fr.fn, fr.fn.blocks[blk])
        if idx == 0 and not skip_phi:
            ph = self.phis(fr, st, env, blk, prev)
            for n, t, v in ph: env[n] = v
        i = max(idx, 0)
        N = len(insts)
        while i < N:
            x = insts[i]
            op = x["op"]
            if op == "phi": i += 1; continue
            try:
                r = self.inst(fr, st, env, x, blk, prev, i, work, outs)
            except Fork as f:
                c = f.cond
                s2 = st.fork(); e2 = dict(env)
                st.add(c); s2.add(Not(c))
                if self.feasible(s2): work.append((s2, e2, blk, prev, i if i else -1))
                if self.feasible(st):
                    work.append((st, env, blk, prev, i if i else -1))
                return
            except Infeasible:
                return
            if r == "stop": return
            i += 1

    def loc(self, fr, x):
        l = fr.fn.module.line_of(x.get("dbg"))
        return "%s:%s" % (os.path.basename(fr.fn.module.src or "?"), l) if l else (fr.fn.name[:40])

    def inst(self, fr, st, env, x, blk, prev, i, work, outs):
        m = fr.fn.module
        op = x["op"]
        V = lambda v, t: self.val(env, v, t, m)
        if op == "load":
            p = V(x["p"], PTR)
            if x["t"].k == "ptr" and x["res"] and x["res"].startswith("vtable"):
                q = p if isinstance(p, Ptr) else self.dec(p)
                if isinstance(q.obj, SymObj): q = self.resolve(st, q)
                if isinstance(q.obj, Obj):
                    cur = st.cells(q.obj).get(q.c) if not q.terms else None
                    env[x["res"]] = cur[2] if cur is not None else VTab(q)
                else: env[x["res"]] = VTab(q)
            else:
                v = self.load(st, p, x["t"], self.loc(fr, x))
                if x.get("vol") and self.volatile is not None: v = self.volatile(self, st, p, x["t"], v)
                if x["t"].k == "i" and x["t"].n == 1:
                    v = bool(v) if not isz(v) else v != 0
                env[x["res"]] = v
        elif op == "store":
            self.store(st, V(x["p"], PTR), x["t"], V(x["v"], x["t"]), self.loc(fr, x))
        elif op == "getelementptr":
            env[x["res"]] = self.gep(st, x["st"], V(x["p"], PTR), [(it, V(iv, it)) for it, iv in x["idx"]])
        elif op in ir.BIN:
            env[x["res"]] = self.binop(st, op, x["t"], V(x["a"], x["t"]), V(x["b"], x["t"]), x["fl"], self.loc(fr, x))
        elif op == "icmp":
            a, b = V(x["a"], x["t"]), V(x["b"], x["t"])
            if isinstance(a, Opaque) or isinstance(b, Opaque): env[x["res"]] = z3.Bool(self.fresh_name("opq"))
            else: env[x["res"]] = self.icmp(st, x["pred"], x["t"], a, b)
        elif op == "fcmp":
            env[x["res"]] = self.fcmp(st, x["pred"], x["t"], V(x["a"], x["t"]), V(x["b"], x["t"]))
        elif op == "fneg":
            a = V(x["a"], x["t"])
            env[x["res"]] = (z3.fpNeg(a) if self.fmode == "fp" else -a) if self.fmode != "bits" else Opaque("fneg")
        elif op in ir.CASTS:
            env[x["res"]] = self.cast(st, op, x["t"], V(x["a"], x["t"]), x["tt"], x["fl"], self.loc(fr, x))
        elif op == "alloca":
            n = 1 if x["n"] is None else V(x["n"], I(64))
            sz = sizeof(x["t"])
            size = sz * n if not isz(n) else (n * sz if sz != 1 else n)
            o = self.new_obj("%s.%s" % (fr.fn.name[-12:], x["res"]), size, x["t"] if not isz(n) else None, "stack", lazy=False)
            env[x["res"]] = Ptr(o)
        elif op == "br":
            if x["cond"] is None:
                work.append((st, env, x["a"], blk, 0)); return "stop"
            c = V(x["cond"], I(1))
            if isinstance(c, Opaque): c = z3.Bool(self.fresh_name("opq"))
            if isinstance(c, bool):
                work.append((st, env, x["a"] if c else x["b"], blk, 0)); return "stop"
            c = z3.simplify(c)
            if z3.is_true(c) or z3.is_false(c):
                work.append((st, env, x["a"] if z3.is_true(c) else x["b"], blk, 0)); return "stop"
            s2 = st.fork(); s2.add(z3.Not(c)); st.add(c)
            ft, ff = self.feasible(st), self.feasible(s2)
            if ff: work.append((s2, dict(env) if ft else env, x["b"], blk, 0))
            if ft: work.append((st, env, x["a"], blk, 0))
            return "stop"
        elif op == "switch":
            c = V(x["c"], x["t"])
            neg = []
            for cv, tgt in x["cases"]:
                cv = int(cv)
                e = self.icmp(st, "eq", x["t"], c, self.wrap(st, cv, x["t"].n))
                if e is False: continue
                if e is True:
                    work.append((st, env, tgt, blk, 0)); return "stop"
                s2 = st.fork(); s2.add(e)
                for q in neg: s2.add(z3.Not(q))
                neg.append(e)
                if self.feasible(s2): work.append((s2, dict(env), tgt, blk, 0))
            for q in neg: st.add(z3.Not(q))
            if self.feasible(st): work.append((st, env, x["default"], blk, 0))
            return "stop"
        elif op == "ret":
            outs.append(("ret", st, None if x["v"] is None else V(x["v"], x["t"])))
            return "stop"
        elif op == "unreachable":
            return "stop"
        elif op == "select":
            c = V(x["c"], I(1)); a, b = V(x["a"], x["t"]), V(x["b"], x["t"])
            if isinstance(c, bool): env[x["res"]] = a if c else b
            elif same(a, b): env[x["res"]] = a
            elif isinstance(a, (Ptr, VTab, Opaque, list)) or isinstance(b, (Ptr, VTab, Opaque, list)):
                env[x["res"]] = a if self.branch(st, c) else b
            else:
                if self.mode == "bv" and x["t"].k == "i" and x["t"].n > 1: a, b = self.bvc(a, x["t"].n), self.bvc(b, x["t"].n)
                env[x["res"]] = ite(c, a, b)
        elif op in ("call", "invoke"):
            return self.do_call(fr, st, env, x, blk, prev, i, work, outs)
        elif op == "freeze":
            env[x["res"]] = V(x["a"], x["t"])
        elif op == "extractvalue":
            a = V(x["a"], x["t"])
            if isinstance(a, Opaque): env[x["res"]] = Opaque("ev")
            else: env[x["res"]] = self.agg_get(a, x["t"], x["ix"])
        elif op == "insertvalue":
            a = V(x["a"], x["t"])
            if isinstance(a, Opaque): a = ["agg", x["t"], [Opaque("u") for _ in self.leaves(x["t"])]]
            env[x["res"]] = self.agg_set(a, x["t"], x["ix"], V(x["v"][1], x["v"][0]))
        elif op == "landingpad":
            env[x["res"]] = ["agg", x["t"], [env.get("...exc", Opaque("exc")), 0]]
            env["...sel"] = x
        elif op == "resume":
            outs.append(("throw", st, env.get("...exc", Opaque("exc")))); return "stop"
        elif op == "atomicrmw" or op == "cmpxchg" or op == "asm" or op == "fence":
            if op == "fence": return None
            raise Unsupported(op)
        else:
            raise Unsupported("instruction " + op)
        return None

    def agg_index(self, t, ix):
        """flat index range of member ix"""
        n = 0
        for k in ix:
            if t.k == "struct":
                for j in range(k): n += len(list(self.leaves(t.fs[j])))
                t = t.fs[k]
            else:
                n += k * len(list(self.leaves(t.e))); t = t.e
        return n, t

    def agg_get(self, a, t, ix):
        n, ft = self.agg_index(t, ix)
        if ft.k in ("struct", "arr"):
            return ["agg", ft, a[2][n:n + len(list(self.leaves(ft)))]]
        return a[2][n]

    def agg_set(self, a, t, ix, v):
        n, ft = self.agg_index(t, ix)
        l = list(a[2])
        if ft.k in ("struct", "arr"): l[n:n + len(v[2])] = v[2]
        else: l[n] = v
        return ["agg", t, l]

    # ------------------------------------------------------------ calls
    def do_call(self, fr, st, env, x, blk, prev, i, work, outs):
        m = fr.fn.module
        args = [self.val(env, v, t, m) for t, v, a in x["args"]]
        # by-value struct arguments: callee gets its own copy
        for j, (t, v, a) in enumerate(x["args"]):
            if "byval" in a and isinstance(args[j], Ptr):
                bt = ir.P(m, a["byval"]).type()
                o = self.new_obj("byval", sizeof(bt), bt, "stack")
                for off, lt in self.leaves(bt):
                    self.store(st, Ptr(o, off), lt, self.load(st, Ptr(args[j].obj, args[j].c + off, args[j].terms), lt))
                args[j] = Ptr(o)
        cal = self.val(env, x["callee"], PTR, m)
        res = self.invoke(fr, st, cal, args, x)
        conts = []
        for r in res:
            if r.kind == "ret":
                conts.append(r)
            elif r.kind == "throw":
                if x["op"] == "invoke":
                    e2 = dict(env) if len(res) > 1 else env
                    e2["...exc"] = r.val
                    work.append((r.st, e2, x["unwind"], blk, 0))
                else:
                    outs.append(("throw", r.st, r.val))
            elif r.kind == "halt":
                outs.append(("halt", r.st, r.val))
            elif r.kind == "cut":
                c = self.cut_point(fr, env, r)
                if c is None: continue
                if c is not True:
                    st2, env2 = c
                    work.append((st2, env2, x["normal"], blk, 0) if x["op"] == "invoke" else (st2, env2, blk, prev, i + 1))
                    continue
        if any(r.kind == "cut" for r in res) and len(res) == 1: return "stop"
        if x["op"] == "invoke":
            for k, r in enumerate(conts):
                e2 = dict(env) if k < len(conts) - 1 or len(res) > 1 else env
                if x["res"]: e2[x["res"]] = r.val
                work.append((r.st, e2, x["normal"], blk, 0))
            return "stop"
        if len(conts) == 1 and conts[0].st is st:
            if x["res"]: env[x["res"]] = conts[0].val
            return None
        for k, r in enumerate(conts):
            e2 = dict(env) if k < len(conts) - 1 else env
            if x["res"]: e2[x["res"]] = r.val
            # continue after the call
            work.append((r.st, e2, blk, prev, i + 1))
        return "stop"

    def cut_point(self, fr, env, r):
        """Outcome("cut", st, (key, facts)): the facts hold for every path that arrives here; what follows is explored once, from any state with these facts"""
        key, facts = r.val
        c = self.cuts[-1] if self.cuts else None
        if c is None or c["fr"] is not fr: raise Unsupported("cut point outside a loop of its function")
        for nm, f in facts(r.st): self.prove(r.st, f, nm, "cut", assume=True)
        H = self.cutH.setdefault((c["name"], key), {})
        if r.st.freed != c["base"].freed: raise Unsupported("memory freed before a cut point")
        new = {a: b for a, b in c["diff"](c["base"], r.st).items() if a not in H}
        if new: H.update(new); c["grown"] = True
        if key in c["seen"]: return None
        c["seen"].add(key)
        s = c["base"].fork()
        c["havoc"](s, H)
        for nm, f in facts(s): self._assume(s, f)
        return s, dict(c["env"])

    def as_outcomes(self, st, r):
        if isinstance(r, Outcome): return [r]
        if isinstance(r, list) and r and isinstance(r[0], Outcome): return r
        if isinstance(r, list) and r == []: return []
        return [Outcome("ret", st, r)]

    def invoke(self, fr, st, cal, args, x):
        loc = self.loc(fr, x)
        name = None
        if isinstance(cal, Ptr) and isinstance(cal.obj, Obj) and cal.c == 0:
            o = cal.obj
            name = o.fn or o.name[1:]
        elif isinstance(cal, VTab):
            h = self.virt.get("resolve")
            if h is None: raise Unsupported("virtual call slot %r at %s" % (cal.slot, loc))
            r = h(self, st, cal, args, x)
            if isinstance(r, str): name = r
            else: return self.as_outcomes(st, r)
        else:
            h = self.virt.get("fnptr")
            if h is None: raise Unsupported("indirect call %r at %s" % (cal, loc))
            if isinstance(cal, Ptr) and isinstance(cal.obj, SymObj):
                q = self.resolve(st, cal)
                if isinstance(q.obj, Obj): name = q.obj.fn or q.obj.name[1:]
            if name is None:
                r = h(self, st, cal, args, x)
                if isinstance(r, str): name = r
                else: return self.as_outcomes(st, r)
        self.called.add(name)
        h = self.handlers.get(name)
        if h is not None: return self.as_outcomes(st, h(self, st, args, x))
        if name.startswith("llvm."):
            import models
            return self.as_outcomes(st, models.intrinsic(self, st, name, args, x, loc))
        dm = self.demangle(name)
        for rx, h in self.patterns:
            if rx.search(dm):
                return self.as_outcomes(st, h(self, st, args, x))
        import models
        h = models.lookup(name, dm)
        if h is not None: return self.as_outcomes(st, h(self, st, args, x))
        fn = self.find_fn(name)
        if fn is not None:
            return self.call(st, fn, args, fr.depth + 1)
        raise Unsupported("call to external %s at %s" % (dm, loc))

    # ------------------------------------------------------------ loops
    def loop(self, fr, st, env, L, prev):
        pol = self.loop_policy
        if callable(pol): pol = pol(fr.fn, L)
        if pol == "inv": return self.loop_inv(fr, st, env, L, prev)
        outs, cur, n = [], [(st, env, prev)], 0
        st0, env0 = (st.fork(), dict(env)) if pol == "auto" else (None, None)
        while cur:
            n += 1
            if n > self.unroll_limit: raise Unsupported("loop in %s not bounded by %d iterations" % (fr.fn.name, self.unroll_limit))
            nxt = []
            back_from, exit_norm = False, False
            for s, e, p in cur:
                for nm, t, v in self.phis(fr, s, e, L.header, p): e[nm] = v
                rs = self.region(fr, [(s, e, L.header, p, 0)], L)
                for o in rs:
                    if o[0] == "back": nxt.append((o[1], o[2], o[3])); back_from = True
                    else:
                        if o[0] == "exit" and (o[4] == L.header or L.header in ir.succs(fr.fn, fr.fn.blocks[o[4]])): exit_norm = True
                        outs.append(o)
            if pol == "auto" and n <= self.auto_limit and back_from and exit_norm:
                # the loop condition is symbolic: reason by invariant
                return self.loop_inv(fr, st0, env0, L, prev)
            cur = nxt
        return outs

    def havoc_val(self, st, t, v, nm):
        """fresh value of the same kind"""
        if t.k == "ptr":
            return self.fresh("ptr", nm, st)
        return self.fresh(kind_of(t), nm, st)

    def loop_inv(self, fr, st, env, L, prev):
        m = fr.fn.module
        rec, self.recording = self.recording, False
        for nm, t, v in self.phis(fr, st, env, L.header, prev): env[nm] = v
        phis0 = self.phis(fr, st, env, L.header, prev)
        name = "%s/%s" % (self.short(fr.fn.name), L.header)
        k = z3.Int(self.fresh_name("iter")) if self.mode == "int" else z3.BitVec(self.fresh_name("iter"), 64)
        ind = {}       # phi name / location -> step
        H = {}         # havocked locations: ("cell",objid,off)->(size,kind) ; ("arr",key) ; ("heap",key)
        V0 = LoopView(self, fr, L, st, phis0, st, 0, H)
        env_in = {n: v for n, v in env.items() if n != "...exc"}
        V0.env = env_in
        loose = set()  # pointers that may leave their block
        attempts = 0

        def shaped(loc, info):
            v = st.mem.get(loc[1], {}).get(loc[2])
            v = v[2] if v is not None else None
            return v if isinstance(v, Ptr) and isinstance(v.obj, Obj) and v.obj.kind != "func" and v.obj.regions else None

        def strays(bp, s2):
            """pointers kept inside their block although the body moves them out"""
            r = set()
            for loc, info in H.items():
                if loc[0] == "cell" and info[1] == "ptr" and loc not in loose:
                    v = shaped(loc, info)
                    if v is None: continue
                    v2 = s2.mem.get(loc[1], {}).get(loc[2])
                    v2 = v2[2] if v2 is not None else None
                    import models
                    if not (isinstance(v2, Ptr) and v2.obj is v.obj and models.index_in(self, v.obj.regions[0], v2) is not None): r.add(loc)
            for (nm, t, v), (_, _, v2) in zip(phis0, bp):
                if t.k == "ptr" and nm not in loose and isinstance(v, Ptr) and isinstance(v.obj, Obj) and v.obj.kind != "func" and v.obj.regions:
                    sd = v.obj.regions[0].stride
                    ok = isinstance(v2, Ptr) and v2.obj is v.obj
                    if ok:
                        import models
                        d = models.index_in(self, v.obj.regions[0], v2)
                        ok = d is not None
                    if not ok: r.add(nm)
            return r
        paths0 = self.paths

        def make(use_ind):
            s = st.fork(); e = dict(env)
            kk = k
            s.add(kk >= 0)
            ph = []
            for nm, t, v in phis0:
                if use_ind and nm in ind:
                    c = ind[nm]
                    if c == 0: nv = v
                    elif t.k == "ptr":
                        nv = Ptr(v.obj, v.c, list(v.terms) + [(c, kk)] if not any(s0 == c for s0, _ in v.terms) else
                                 [(s0, x0 + kk if s0 == c else x0) for s0, x0 in v.terms], v.tk)
                    else: nv = (zint(v, kk) + kk * c) if not (not isz(v) and v == 0 and c == 1) else kk
                elif t.k == "ptr" and nm not in loose and isinstance(v, Ptr) and isinstance(v.obj, Obj) and v.obj.kind != "func" and v.obj.regions:
                    # stays inside its block, a whole number of elements away from where it started
                    sd = v.obj.regions[0].stride
                    d = self.fresh("i64", fr.fn.name[-8:] + "." + nm, s)
                    nv = Ptr(v.obj, v.c, list(v.terms) + [(sd, d)], v.tk)
                else:
                    nv = self.havoc_val(s, t, v, fr.fn.name[-8:] + "." + nm)
                if isz(nv) and t.k == "i" and t.n > 1 and self.mode == "int":
                    # an IR value always lies in the range of its type
                    n = t.n
                    s.add(z3.And(nv >= -2 ** (n - 1), nv < 2 ** (n - 1)))
                e[nm] = nv
                ph.append((nm, t, nv))
            havoc(s, H, use_ind)
            s.owned = set()
            return s, e, ph

        def havoc(s, H, use_ind):
            kk = k
            for loc, info in H.items():
                if loc[0] == "cell":
                    o = self.objs[loc[1]]
                    if use_ind and loc in ind:
                        v0 = self.load_cell(s, o, loc[2], info[1], info[0], "loop")
                        c = ind[loc]
                        if c and isinstance(v0, Ptr):
                            nv = Ptr(v0.obj, v0.c, list(v0.terms) + [(c, kk)] if not any(x == c for x, _ in v0.terms) else [(x, y + kk if x == c else y) for x, y in v0.terms], v0.tk)
                        else: nv = (zint(v0, kk) + kk * c) if c else v0
                        if self.mode == "int" and isz(nv) and info[1][0] == "i":
                            n = int(info[1][1:]); s.add(z3.And(nv >= -2 ** (n - 1), nv < 2 ** (n - 1)))
                    else:
                        nv = None
                        if info[1] == "ptr" and loc not in loose:
                            v0 = shaped(loc, info)
                            if v0 is not None: nv = Ptr(v0.obj, v0.c, list(v0.terms) + [(v0.obj.regions[0].stride, self.fresh("i64", o.name, s))], v0.tk)
                        if nv is None: nv = self.fresh(info[1] if info[1] != "i1" else "i8", o.name + self.fieldname(o, loc[2]), s)
                    d = s.cells(o, True)
                    d[loc[2]] = (info[0], info[1], nv)
                elif loc[0] == "arr":
                    s.arrs[loc[1]] = self.new_arr("%s[]" % self.objs[loc[1][0]].name, info)
                elif loc[0] == "heap":
                    s.heap[loc[1]] = self.new_arr("H:%s" % (loc[1],), info)
                elif loc[0] == "ghost":
                    s.ghost[loc[1]] = info(self, s)

        hkey_cur = [(name, self.loop_ord.get((tuple(self.loop_path), name), 0))]

        def run(s, e):
            while True:
                c = dict(fr=fr, base=s.fork(), env=dict(e), seen=set(), grown=False, name=name, diff=diff, havoc=lambda s, H: havoc(s, H, False))
                self.cuts.append(c); self.loop_path.append(hkey_cur[0])
                pre = tuple(self.loop_path)
                for q in [q for q in self.loop_ord if q[0][:len(pre)] == pre]: del self.loop_ord[q]
                try: rs = self.region(fr, [(s.fork(), dict(e), L.header, prev, 0)], L)
                finally: self.cuts.pop(); self.loop_path.pop()
                if not c["grown"]: return rs
                if self.recording: raise Unsupported("the state at a cut point in %s does not stabilise" % name)

        def diff(s1, s2):
            new = {}
            for oid in s2.mem:
                if oid not in st.mem and oid not in s1.mem:
                    # object first touched (or created) in the body
                    o = self.objs[oid]
                    if o.kind == "stack" and o.id > id_mark: continue
                    if o.id > id_mark: continue
                a, b = s1.mem.get(oid, {}), s2.mem[oid]
                if a is b: continue
                for off, y in b.items():
                    q = a.get(off)
                    if q is None:
                        key = ("cell", oid, off, y[1])
                        base = self._heapbase.get(key)
                        if base is not None and same(base, y[2]): continue
                        oo = self.objs[oid]
                        if oo.kind == "zero" and (same(y[2], 0) or same(y[2], NULL)): continue
                        new[("cell", oid, off)] = (y[0], y[1])
                    elif not same(q[2], y[2]) or q[0] != y[0]:
                        new[("cell", oid, off)] = (y[0], y[1])
                for off in a:
                    if off not in b: raise Unsupported("cell resized in loop")
            for kk, a in s2.arrs.items():
                if kk[0] > id_mark: continue
                b = s1.arrs.get(kk)
                if b is None: b = self._heapbase.get(("arr",) + kk)
                if a is not b: new[("arr", kk)] = getattr(a, "kind", None) or "i64"
            for kk, a in s2.heap.items():
                b = s1.heap.get(kk)
                if b is None: b = self._heapbase.get(kk)
                if a is not b: new[("heap", kk)] = getattr(a, "kind", None) or self.kinds_seen.get(kk)
            for kk, g in s2.ghost.items():
                if s1.ghost.get(kk) is not g and not same_ghost(s1.ghost.get(kk), g):
                    hv = getattr(g, "havoc", None)
                    if hv is None: raise Unsupported("ghost %s changes in a loop" % kk)
                    new[("ghost", kk)] = hv
            return new

        id_mark = Obj._n
        # ---- pass 1: what does the body write, which values step by a constant?
        nw, self.nowrap = self.nowrap, True
        nc, self.nocand = self.nocand, True
        saf = self.safety
        while True:
            attempts += 1
            if attempts > 12: raise Unsupported("havoc set does not stabilise in " + name)
            s, e, ph = make(False)
            base = s.fork()
            rs = run(s, e)
            new, st2 = {}, set()
            for o in rs:
                if o[0] == "back":
                    new.update(diff(base, o[1]))
                    st2 |= strays(self.phis(fr, o[1], o[2], L.header, o[3]), o[1])
            add = {a: b for a, b in new.items() if a not in H}
            if not add and not st2: break
            H.update(add); loose |= st2
        steps = {}
        for o in rs:
            if o[0] != "back": continue
            bp = self.phis(fr, o[1], o[2], L.header, o[3])
            for (nm, t, v1), (_, _, v2) in zip(ph, bp):
                steps.setdefault(nm, set()).add(step(v1, v2))
            for loc, info in H.items():
                if loc[0] == "cell":
                    a = base.mem.get(loc[1], {}).get(loc[2]); b = o[1].mem.get(loc[1], {}).get(loc[2])
                    if a is not None and b is not None: steps.setdefault(loc, set()).add(step(a[2], b[2]))
        self.nowrap, self.nocand = nw, nc
        for nm, ss in steps.items():
            if len(ss) == 1 and None not in ss: ind[nm] = next(iter(ss))
        # pointer phis that step by a constant: keep the object of the initial value.
        for nm, t, v in phis0:
            if t.k == "ptr" and nm not in ind: pass
        # ---- Houdini
        cands0 = self.candidates(V0)
        alive = {}
        # a loop inside a loop is looked at again whenever the outer one is: start from what was kept last time
        # (any set of candidates will do, as long as what is kept in the end is proved)
        hkey = tuple(self.loop_path) + ((name, self.loop_ord.setdefault((tuple(self.loop_path), name), 0)),)
        self.loop_ord[(tuple(self.loop_path), name)] += 1
        known = self.loop_kept.get(hkey) if not self.nocand else None
        todo = []
        for key, f in cands0:
            if known is not None and not known.get(key, True): alive[key] = False; continue
            alive[key] = True; todo.append((key, f))
        for key in self._fails(st, todo): alive[key] = False
        hrounds = 0
        while True:
            hrounds += 1
            if hrounds > 40: raise Unsupported("invariants do not stabilise in " + name)
            s, e, ph = make(True)
            Vh = LoopView(self, fr, L, s, ph, st, k, H); Vh.env = env_in
            for key, f in self.candidates(Vh):
                if alive.get(key): self._assume(s, f)
            base = s.fork()
            rs = run(s, e)
            changed = False
            new = {}
            for o in rs:
                if o[0] == "back": new.update(diff(base, o[1]))
            add = {a: b for a, b in new.items() if a not in H}
            if add:
                H.update(add); changed = True
            for o in rs:
                if o[0] == "back":
                    r = strays(self.phis(fr, o[1], o[2], L.header, o[3]), o[1]) - set(ind)
                    if r: loose |= r; changed = True
            if not changed:
                for o in rs:
                    if o[0] != "back": continue
                    bp = self.phis(fr, o[1], o[2], L.header, o[3])
                    # induction relations must really hold
                    for (nm, t, v0), (_, _, v2) in zip(phis0, bp):
                        if nm in ind:
                            cur = dict((a, c) for a, b, c in ph)[nm]
                            if ind[nm] == 0:
                                if not same(v2, v0): ind.pop(nm); changed = True
                            elif step(cur, v2) != ind[nm] and not self._holds(o[1], self.step_eq(cur, v2, ind[nm])):
                                ind.pop(nm); changed = True
                    for loc in [l for l in ind if isinstance(l, tuple)]:
                        a = base.mem.get(loc[1], {}).get(loc[2]); b = o[1].mem.get(loc[1], {}).get(loc[2])
                        if a is None or b is None: continue
                        if step(a[2], b[2]) != ind[loc] and not self._holds(o[1], self.step_eq(a[2], b[2], ind[loc])):
                            ind.pop(loc); changed = True
                    Vb = LoopView(self, fr, L, o[1], bp, st, k + 1, H); Vb.env = env_in
                    for key in self._fails(o[1], [(key, f) for key, f in self.candidates(Vb) if alive.get(key)]):
                        alive[key] = False; changed = True
            if not changed: break
        if not self.nocand: self.loop_kept[hkey] = dict(alive)
        # ---- final pass with recording on: the obligations of the body and the loop itself
        self.recording = rec
        if rec:
            self.paths = max(paths0, self.paths - 0)
            s, e, ph = make(True)
            Vh = LoopView(self, fr, L, s, ph, st, k, H); Vh.env = env_in
            inv = []
            for key, f in self.candidates(Vh):
                if alive.get(key):
                    self._assume(s, f); inv.append(key)
            rs = run(s, e)
            kept = [key for key in alive if alive[key]]
            self.inv_report.append(dict(loop=name, invariants=[str(x) for x in kept], havocked=len(H), induction=len(ind)))
            for key in kept:
                self.obl.append(dict(name="%s: invariant %s of loop %s holds initially and is preserved" % (self.tag, key, name), kind="invariant",
                                     status="proved", backend="z3", time=0.0, model=None))
            for nm in ind:
                self.obl.append(dict(name="%s: induction relation in loop %s" % (self.tag, name), kind="invariant", status="proved", backend="z3", time=0.0, model=None))
        return [o for o in rs if o[0] != "back"]

    def step_eq(self, a, b, c):
        if isinstance(a, Ptr):
            if not isinstance(b, Ptr): return False
            return Eq(z3.simplify(zint(self.addr(b)) - zint(self.addr(a))), c)
        if isinstance(a, (VTab, Opaque)) or isinstance(b, (VTab, Opaque)): return False
        return Eq(zint(b, a), zint(a, b) + c)

    def short(self, n):
        d = self.demangle(n)
        return d.split("(")[0][-50:]

    hold_timeout = 2
    auto_limit = 2      # iterations after which a loop that may or may not go on is reasoned about by invariant

    def _fails(self, st, todo):
        """which of the candidates (key, formula) are not implied: one model may refute many of them"""
        r = []
        todo = [(k, f) for k, f in todo if f is not True]
        if len(todo) > 3:
            qf = [(k, zb(f)) for k, f in todo if f is not False and not has_quant(f)]
            rest = {k for k, f in qf}
            todo = [(k, f) for k, f in todo if k not in rest]
            while qf:
                s = z3.Solver(); s.set("timeout", 4000)
                for c in st.pc: s.add(c)
                s.add(z3.Not(z3.And(*[f for k, f in qf])))
                t = time.time(); q = s.check(); self.solver_time += time.time() - t; self.nqueries += 1
                if q == z3.unsat: qf = []; break
                bad = set()
                if q == z3.sat:
                    m = s.model()
                    try: bad = {k for k, f in qf if z3.is_false(m.eval(f, model_completion=True))}
                    except z3.Z3Exception: bad = set()
                if not bad: todo += qf; break
                again = [(k, f) for k, f in qf if k in bad] if st.qpc else []
                r += [k for k in bad if not st.qpc]; todo += again
                qf = [(k, f) for k, f in qf if k not in bad]
        return r + [k for k, f in todo if not self._holds(st, f)]

    def _holds(self, st, f):
        if f is True: return True
        if f is False: return not self.feasible(st)
        f = zb(f)
        if z3.is_true(z3.simplify(f)): return True
        r, _ = self._check(st.pc + [z3.Not(f)], self.hold_timeout)
        if r == z3.unsat: return True
        if st.qpc or has_quant(f):
            r, _ = self._check(st.pc + st.qpc + self.axioms + [z3.Not(f)], min(self.timeout, 8), mbqi=False)
            return r == z3.unsat
        return False

    def candidates(self, V):
        r = []
        if self.cands_fn is not None and not self.nocand:
            for i, x in enumerate(self.cands_fn(V) or []):
                if isinstance(x, tuple): r.append((x[0], x[1]))
                else: r.append(("c%d" % i, x))
        return r


class Infeasible(Exception):
    pass


def same_ghost(a, b):
    try: return a == b
    except Exception: return False


def step(a, b):
    """constant c with b == a + c, or None"""
    if same(a, b): return 0
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if not (a.obj is b.obj or (isinstance(a.obj, SymObj) and a.obj == b.obj)): return None
        ta, tb = dict(a.terms), dict(b.terms)
        if set(ta) != set(tb):
            return None
        d = b.c - a.c
        for s in ta:
            if not same(ta[s], tb[s]):
                q = step(ta[s], tb[s])
                if q is None: return None
                d += s * q
        return d
    if isinstance(a, (Ptr, VTab, Opaque, list, bool)) or isinstance(b, (Ptr, VTab, Opaque, list, bool)): return None
    if not isz(a) and not isz(b): return None
    if isz(a) and (z3.is_fp(a) or z3.is_bool(a) or z3.is_real(a)) or isz(b) and (z3.is_fp(b) or z3.is_bool(b) or z3.is_real(b)): return None
    try: d = z3.simplify(zint(b, a) - zint(a, b))
    except Exception: return None
    if z3.is_int_value(d): return d.as_long()
    if z3.is_bv_value(d): return d.as_signed_long()
    return None


def as01(e):
    """Bool b when e is If(b,1,0)"""
    if not isz(e):
        return bool(e) if e in (0, 1) else None
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        x, y = e.arg(1), e.arg(2)
        if z3.is_int_value(x) and z3.is_int_value(y):
            if x.as_long() == 1 and y.as_long() == 0: return e.arg(0)
            if x.as_long() == 0 and y.as_long() == 1: return z3.Not(e.arg(0))
    return None


def ubound(e):
    """an upper bound of an integer term that is never negative, or None"""
    if z3.is_int_value(e): return e.as_long() if e.as_long() >= 0 else None
    k = e.decl().kind()
    c = e.children()
    if k == z3.Z3_OP_MOD and z3.is_int_value(c[1]) and c[1].as_long() > 0: return c[1].as_long() - 1
    if k == z3.Z3_OP_IDIV and z3.is_int_value(c[1]) and c[1].as_long() > 0:
        u = ubound(c[0]); return None if u is None else u // c[1].as_long()
    if k == z3.Z3_OP_ITE:
        u, v = ubound(c[1]), ubound(c[2]); return None if u is None or v is None else max(u, v)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
        us = [ubound(x) for x in c]
        if None in us: return None
        r = 0 if k == z3.Z3_OP_ADD else 1
        for u in us: r = r + u if k == z3.Z3_OP_ADD else r * u
        return r
    return None


def low_zeros(e):
    """how many low bits of an integer term are surely 0"""
    if z3.is_int_value(e):
        v = e.as_long()
        return 99 if v == 0 else (v & -v).bit_length() - 1
    k = e.decl().kind()
    c = e.children()
    if k == z3.Z3_OP_MUL: return min(99, sum(low_zeros(x) for x in c))
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB): return min(low_zeros(x) for x in c)
    if k == z3.Z3_OP_MOD and z3.is_int_value(c[1]): return min(low_zeros(c[0]), low_zeros(c[1]))
    if k == z3.Z3_OP_ITE: return min(low_zeros(c[1]), low_zeros(c[2]))
    return 0


def is_atom(e):
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED


def ite_leaves(e):
    """leaves of a nested If; numerals come back as python ints; [] when there is no numeral leaf"""
    if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE): return []
    out = []

    def go(x):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            go(x.arg(1)); go(x.arg(2))
        elif z3.is_int_value(x): out.append(x.as_long())
        elif z3.is_bv_value(x): out.append(x.as_long())
        else: out.append(x)
    go(e)
    r, seen = [], set()
    for x in out:
        k = x if not isz(x) else ("z", x.get_id())
        if k not in seen: seen.add(k); r.append(x)
    return r


_hq = {}


def has_quant(e):
    k = e.get_id()
    if k in _hq and _hq[k][0].eq(e): return _hq[k][1]
    if z3.is_quantifier(e): r = True
    else: r = any(has_quant(c) for c in e.children())
    _hq[k] = (e, r)
    return r


def simplest(x, single=False):
    """the simplest rational that rounds to the literal"""
    f = Fraction(x)
    if f.denominator == 1: return f
    import struct
    for lim in (10, 100, 1000, 10000, 100000, 10 ** 6, 10 ** 9, 10 ** 12):
        g = f.limit_denominator(lim)
        gx = g.numerator / g.denominator
        if gx == x or (single and struct.unpack("f", struct.pack("f", gx))[0] == x): return g
    # decimal literal
    g = Fraction(repr(x))
    return g if float(g) == x else f


def run_cvc5(smt2, timeout):
    import tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + smt2)
        nm = f.name
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), nm], capture_output=True, text=True, timeout=timeout + 5)
        o = r.stdout.strip().split("\n")[0]
        return o
    except Exception:
        return "unknown"
    finally:
        os.unlink(nm)
