"""Reader for the textual LLVM IR (clang 18) that is compiled from /repo on every run.

Only what -O0 + sroa output needs.  Functions are parsed lazily.
"""
import re, struct
from fractions import Fraction


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class T:
    __slots__ = ("k", "n", "e", "name", "fs", "packed", "_size", "_align")

    def __init__(self, k, n=0, e=None, name=None, fs=None, packed=False):
        self.k, self.n, self.e, self.name, self.fs, self.packed = k, n, e, name, fs, packed
        self._size = self._align = None

    def __repr__(self):
        if self.k == "i": return "i%d" % self.n
        if self.k == "arr": return "[%d x %r]" % (self.n, self.e)
        if self.k == "struct": return self.name or "{%s}" % ", ".join(map(repr, self.fs or []))
        return self.k


VOID, PTR, DBL, FLT, LABEL, META, FP80 = (T(k) for k in ("void", "ptr", "double", "float", "label", "metadata", "x86_fp80"))
_ints = {}


def I(n):
    if n not in _ints:
        _ints[n] = T("i", n)
    return _ints[n]


_ws = re.compile(r"\s*")
_word = re.compile(r"[A-Za-z_][A-Za-z0-9_.]*")
_name = re.compile(r'"(?:[^"\\]|\\.)*"|[-A-Za-z0-9_.$]+')
_num = re.compile(r"-?\d+\.\d+(?:e[-+]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+")


class P:
    """cursor over one logical line"""

    def __init__(self, m, s, i=0):
        self.m, self.s, self.i = m, s, i

    def ws(self):
        self.i = _ws.match(self.s, self.i).end()

    def peek(self, lit):
        self.ws()
        return self.s.startswith(lit, self.i)

    def eat(self, lit):
        self.ws()
        if self.s.startswith(lit, self.i):
            self.i += len(lit)
            return True
        return False

    def need(self, lit):
        if not self.eat(lit):
            raise IRError("expected %r at %r" % (lit, self.s[self.i:self.i + 60]))

    def word(self):
        self.ws()
        m = _word.match(self.s, self.i)
        if not m: return None
        return m.group(0)

    def eatword(self, w=None):
        x = self.word()
        if x is None or (w is not None and x != w): return None
        self.i += len(x)
        return x

    def name(self):
        m = _name.match(self.s, self.i)
        if not m: raise IRError("name at %r" % self.s[self.i:self.i + 40])
        self.i = m.end()
        r = m.group(0)
        return r[1:-1] if r[0] == '"' else r

    # ---- types
    def type(self):
        self.ws()
        s = self.s
        c = s[self.i]
        if c == "%":
            self.i += 1
            t = self.m.named(self.name())
        elif c == "[":
            self.i += 1
            self.ws()
            n = int(_num.match(s, self.i).group(0)); self.i += len(str(n))
            self.need("x")
            e = self.type(); self.need("]")
            t = T("arr", n, e)
        elif c == "{" or s.startswith("<{", self.i):
            packed = c == "<"
            self.i += 2 if packed else 1
            fs = []
            while not self.peek("}"):
                fs.append(self.type())
                if not self.eat(","): break
            self.need("}>" if packed else "}")
            t = T("struct", fs=fs, packed=packed)
        elif c == "<":
            self.i += 1
            self.ws()
            n = int(_num.match(s, self.i).group(0)); self.i += len(str(n))
            self.need("x"); e = self.type(); self.need(">")
            t = T("vec", n, e)
        else:
            w = self.eatword()
            if w is None: raise IRError("type at %r" % s[self.i:self.i + 60])
            if re.fullmatch(r"i\d+", w): t = I(int(w[1:]))
            else:
                t = {"void": VOID, "ptr": PTR, "double": DBL, "float": FLT, "label": LABEL, "metadata": META,
                     "x86_fp80": FP80, "opaque": T("opaque"), "token": T("token"), "half": T("half")}.get(w)
                if t is None: raise IRError("type word " + w)
        while True:   # function type suffix
            self.ws()
            if self.i < len(s) and s[self.i] == "(" and t is not META:
                self.i += 1
                ps, va = [], False
                while not self.peek(")"):
                    if self.eat("..."): va = True
                    else: ps.append(self.type())
                    if not self.eat(","): break
                self.need(")")
                t = T("fn", e=t, fs=ps, packed=va)
            else:
                return t

    def attrs(self):
        """skip parameter/return attributes; returns dict of the interesting ones"""
        d = {}
        while True:
            self.ws()
            if self.s.startswith("#", self.i):
                self.i = re.compile(r"#\d+").match(self.s, self.i).end(); continue
            m = _word.match(self.s, self.i)
            if not m: return d
            w = m.group(0)
            if w not in ATTRS: return d
            self.i = m.end()
            if w == "align":
                self.ws(); q = re.compile(r"\(?\d+\)?").match(self.s, self.i); self.i = q.end()
            elif self.i < len(self.s) and self.s[self.i] == "(":
                depth = 0; j = self.i
                while True:
                    ch = self.s[j]
                    if ch == '"':
                        j = self.s.index('"', j + 1)
                    elif ch == "(": depth += 1
                    elif ch == ")":
                        depth -= 1
                        if depth == 0: break
                    j += 1
                d[w] = self.s[self.i + 1:j]
                self.i = j + 1
            else:
                d[w] = True

    # ---- values
    def value(self, t):
        self.ws()
        s = self.s
        c = s[self.i]
        if c == "%":
            self.i += 1
            return ("l", self.name())
        if c == "@":
            self.i += 1
            return ("g", self.name())
        if c == "c" and s.startswith('c"', self.i):
            j = s.index('"', self.i + 2)
            raw = s[self.i + 2:j]; self.i = j + 1
            out = bytearray(); k = 0
            while k < len(raw):
                if raw[k] == "\\":
                    if raw[k + 1] == "\\": out.append(92); k += 2
                    else: out.append(int(raw[k + 1:k + 3], 16)); k += 3
                else: out += raw[k].encode("latin1", "replace"); k += 1
            return ("agg", [("c", I(8), b - 256 if b > 127 else b) for b in out])
        if c in "[{" or s.startswith("<{", self.i) or c == "<":
            op = "<{" if s.startswith("<{", self.i) else c
            self.i += len(op)
            cl = {"[": "]", "{": "}", "<{": "}>", "<": ">"}[op]
            vs = []
            while not self.peek(cl):
                et = self.type(); vs.append(self.value(et))
                if not self.eat(","): break
            self.need(cl)
            return ("agg", vs)
        m = _num.match(s, self.i)
        if m:
            self.i = m.end()
            x = m.group(0)
            if t.k == "i":
                v = int(x, 16) if x.startswith("0x") else int(x)
                return ("c", t, v)
            if t.k in ("double", "float"):
                if x.startswith("0x"):
                    f = struct.unpack(">d", bytes.fromhex(x[2:].rjust(16, "0")))[0]
                else:
                    f = float(x)
                return ("c", t, f)
            return ("c", t, x)
        w = self.eatword()
        if w in ("true", "false"): return ("c", t, w == "true")
        if w == "null": return ("c", t, None)
        if w in ("undef", "poison"): return ("undef", t)
        if w == "zeroinitializer": return ("zero", t)
        if w == "none": return ("undef", t)
        if w == "getelementptr":
            while self.eatword("inbounds") or self.eatword("nuw") or self.eatword("nusw"): pass
            if self.eat("inrange"):   # inrange(-16, 8)
                self.i = s.index(")", self.i) + 1
            self.need("(")
            st = self.type(); self.need(",")
            pt = self.type(); pv = self.value(pt)
            idx = []
            while self.eat(","):
                self.eatword("inrange")
                it = self.type(); idx.append((it, self.value(it)))
            self.need(")")
            return ("cgep", st, pv, idx)
        if w in ("inttoptr", "ptrtoint", "bitcast", "trunc", "addrspacecast"):
            self.need("("); ft = self.type(); v = self.value(ft); self.need("to"); tt = self.type(); self.need(")")
            return ("ccast", w, ft, v, tt)
        if w in ("sub", "add"):
            while self.eatword("nuw") or self.eatword("nsw"): pass
            self.need("("); t1 = self.type(); a = self.value(t1); self.need(","); t2 = self.type(); b = self.value(t2); self.need(")")
            return ("cbin", w, t1, a, b)
        if w == "blockaddress" or w == "dso_local_equivalent" or w == "no_cfi":
            return ("undef", t)
        raise IRError("value at %r (word %r)" % (s[self.i:self.i + 60], w))

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


ATTRS = set("""noundef nonnull align dereferenceable dereferenceable_or_null zeroext signext noalias sret byval byref inalloca
nocapture readonly readnone writeonly returned immarg inreg nest nofree swiftself swifterror allocalign allocptr noreturn nounwind
range nofpclass writable dead_on_unwind nopoison mustprogress preallocated captures elementtype""".split())


def size_align(t):
    if t._size is not None: return t._size, t._align
    k = t.k
    if k == "i":
        n = t.n
        s = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
        a = s
        if n > 64: s = (n + 127) // 128 * 16; a = 16
    elif k == "ptr" or k == "double": s = a = 8
    elif k == "float": s = a = 4
    elif k == "x86_fp80": s = a = 16
    elif k == "arr":
        es, a = size_align(t.e)
        s = es * t.n
    elif k == "vec":
        es, _ = size_align(t.e); s = es * t.n; a = s
    elif k == "struct":
        o, a = 0, 1
        for f in t.fs:
            fs, fa = size_align(f)
            if t.packed: fa = 1
            o = (o + fa - 1) // fa * fa + fs
            a = max(a, fa)
        s = (o + a - 1) // a * a
    elif k == "fn" or k == "opaque": s, a = 1, 1
    else:
        raise IRError("size of " + k)
    t._size, t._align = s, a
    return s, a


def sizeof(t): return size_align(t)[0]


def field_off(t, i):
    o = 0
    for j, f in enumerate(t.fs):
        fs, fa = size_align(f)
        if t.packed: fa = 1
        o = (o + fa - 1) // fa * fa
        if j == i: return o
        o += fs
    raise IRError("field index")


def innermost(t, off):
    """(innermost struct, offset of that struct in t, offset of field in it, scalar/array type) at byte offset off"""
    base, cur, path = 0, t, None
    owner, obase = (t if t.k == "struct" else None), 0
    while True:
        if cur.k == "struct":
            owner, obase = cur, base
            for i, f in enumerate(cur.fs):
                fo = field_off(cur, i)
                sz = sizeof(f)
                if fo <= off - base < fo + max(sz, 1) and sz > 0:
                    base += fo; cur = f
                    break
            else:
                return owner, obase, off - obase, None
        elif cur.k == "arr":
            es = sizeof(cur.e)
            if es == 0 or off - base >= es * max(cur.n, 1): return owner, obase, off - obase, None
            if cur.e.k in ("struct", "arr"):
                i = (off - base) // es
                base += i * es; cur = cur.e
            else:
                return owner, obase, off - obase, cur.e
        else:
            return owner, obase, off - obase, cur


# ---------------------------------------------------------------- module
class Block:
    __slots__ = ("name", "lines", "insts")

    def __init__(self, name):
        self.name, self.lines, self.insts = name, [], None


class Fn:
    def __init__(self, name, ret, params, va, body, dbg):
        self.name, self.ret, self.params, self.va, self.bodylines, self.dbg = name, ret, params, va, body, dbg
        self.blocks = None
        self.loops = None


class Module:
    def __init__(self, path, src=None):
        self.path = path
        self.src = src
        self.types, self.typedefs = {}, {}
        self.globals, self.fns, self.decls, self.md, self.aliases = {}, {}, {}, {}, {}
        self._rawfn = {}
        self._dwarf = None
        with open(path, encoding="utf-8", errors="replace") as f:
            lines = f.read().split("\n")
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define "):
                j = i + 1
                while lines[j] != "}": j += 1
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-A-Za-z0-9_.$]+)\(', l)
                nm = m.group(1).strip('"')
                self._rawfn[nm] = (l, lines[i + 1:j])
                i = j
            elif l.startswith("declare "):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-A-Za-z0-9_.$]+)\(', l)
                self.decls[m.group(1).strip('"')] = l
            elif l.startswith("%"):
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[-A-Za-z0-9_.$]+) = type (.*)$', l)
                if m: self.typedefs[m.group(1).strip('"')] = m.group(2)
            elif l.startswith("@"):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-A-Za-z0-9_.$]+) = (.*)$', l)
                if m: self.globals[m.group(1).strip('"')] = m.group(2)
            elif l.startswith("!"):
                k = l.find(" = ")
                if k > 0: self.md[l[1:k]] = l[k + 3:]
            i += 1
        self._g = {}

    def named(self, nm):
        t = self.types.get(nm)
        if t is None:
            t = T("struct", name=nm, fs=None)
            self.types[nm] = t
            d = self.typedefs.get(nm)
            if d is None or d.strip() == "opaque":
                t.k = "opaque"
            else:
                q = P(self, d).type()
                t.fs, t.packed, t.k, t.n, t.e = q.fs, q.packed, q.k, q.n, q.e
        return t

    def global_def(self, nm):
        """(type, init value or None, is_constant)"""
        if nm in self._g: return self._g[nm]
        d = self.globals.get(nm)
        if d is None: return None
        p = P(self, d)
        const = False
        ext = False
        while True:
            w = p.word()
            if w in ("global", "constant"):
                p.eatword(); const = w == "constant"; break
            if w in ("alias", "ifunc"):
                self._g[nm] = (PTR, None, False, True); return self._g[nm]
            if w is None: raise IRError("global " + d[:80])
            if w in ("external", "extern_weak"): ext = True
            p.eatword()
            if p.peek("("):
                p.i = p.s.index(")", p.i) + 1
        t = p.type()
        p.ws()
        init = None
        if not ext and p.i < len(p.s) and p.s[p.i] != ",":
            init = p.value(t)
        self._g[nm] = (t, init, const, ext)
        return self._g[nm]

    # ---- functions
    def fn(self, nm):
        f = self.fns.get(nm)
        if f is None:
            raw = self._rawfn.get(nm)
            if raw is None: return None
            f = self._parse_fn(nm, raw)
            self.fns[nm] = f
        return f

    def _parse_fn(self, nm, raw):
        hdr, body = raw
        k = re.search(r'@("(?:[^"\\]|\\.)*"|[-A-Za-z0-9_.$]+)\(', hdr)
        # return type: last type before @name
        pre = hdr[len("define "):k.start()]
        toks = pre.strip()
        p = P(self, toks + " ")
        while True:
            p.ws()
            w = p.word()
            if w in LINK or w in ATTRS:
                if w in ATTRS: p.attrs()
                else:
                    p.eatword()
                    if p.peek("("): p.i = p.s.index(")", p.i) + 1
                continue
            break
        ret = p.type()
        q = P(self, hdr, k.end())
        params, va, n = [], False, 0
        while not q.eat(")"):
            if q.eat("..."):
                va = True
            else:
                t = q.type(); a = q.attrs()
                q.ws()
                if q.s[q.i] == "%":
                    q.i += 1; name = q.name()
                else: name = str(n)
                params.append((t, name, a))
                n += 1
            q.eat(",")
        m = re.search(r"!dbg !(\d+)", hdr[q.i:])
        f = Fn(nm, ret, params, va, body, m.group(1) if m else None)
        f.module = self
        # blocks
        blocks, cur = {}, None
        first = None
        i = 0
        while i < len(body):
            l = body[i]
            s = l.strip()
            if not s or s.startswith(";"):
                i += 1; continue
            mm = re.match(r'^("(?:[^"\\]|\\.)*"|[-A-Za-z0-9_.$]+):', l)
            if mm and not l.startswith(" "):
                cur = Block(mm.group(1).strip('"')); blocks[cur.name] = cur
                first = first or cur.name
            else:
                if cur is None:
                    cur = Block(str(n)); blocks[cur.name] = cur; first = cur.name
                if s.startswith("switch ") and not s.rstrip().endswith("]") and "]" not in s:
                    while "]" not in body[i]:
                        i += 1; s += " " + body[i].strip()
                elif s.startswith(("invoke ",)) or re.match(r"%\S+ = invoke ", s) or re.match(r'%"[^"]*" = invoke ', s):
                    while " unwind label " not in s:
                        i += 1; s += " " + body[i].strip()
                elif re.match(r"\S+ = landingpad", s):
                    while i + 1 < len(body) and re.match(r"\s+(cleanup|catch|filter)\b", body[i + 1]):
                        i += 1; s += " " + body[i].strip()
                cur.lines.append(s)
            i += 1
        f.blocks, f.entry = blocks, first
        return f

    def insts(self, f, b):
        if b.insts is None:
            b.insts = []
            for l in b.lines:
                x = self._inst(l)
                if x is not None: b.insts.append(x)
        return b.insts

    def _inst(self, l):
        res = None
        m = re.match(r'%("(?:[^"\\]|\\.)*"|[-A-Za-z0-9_.$]+) = ', l)
        s = l
        if m:
            res = m.group(1).strip('"'); s = l[m.end():]
        p = P(self, s)
        for pre in ("tail", "musttail", "notail"):
            p.eatword(pre)
        op = p.eatword()
        line = None
        k = s.rfind("!dbg !")
        if k >= 0:
            mm = re.match(r"!dbg !(\d+)", s[k:])
            line = mm.group(1) if mm else None
        d = dict(op=op, res=res, dbg=line)
        if op in BIN:
            fl = set()
            while p.word() in FLAGS: fl.add(p.eatword())
            t = p.type(); a = p.value(t); p.need(","); b = p.value(t)
            d.update(t=t, a=a, b=b, fl=fl)
        elif op == "fneg":
            while p.word() in FLAGS: p.eatword()
            t = p.type(); d.update(t=t, a=p.value(t))
        elif op in ("icmp", "fcmp"):
            while p.word() in FLAGS: p.eatword()
            pred = p.eatword(); t = p.type(); a = p.value(t); p.need(","); b = p.value(t)
            d.update(pred=pred, t=t, a=a, b=b)
        elif op in CASTS:
            fl = set()
            while p.word() in FLAGS: fl.add(p.eatword())
            t, a = p.tv(); p.need("to"); tt = p.type()
            d.update(t=t, a=a, tt=tt, fl=fl)
        elif op == "load":
            p.eatword("atomic"); vol = p.eatword("volatile")
            t = p.type(); p.need(","); _, a = p.tv()
            d.update(t=t, p=a, vol=bool(vol))
        elif op == "store":
            p.eatword("atomic"); p.eatword("volatile")
            t = p.type(); v = p.value(t); p.need(","); _, a = p.tv()
            d.update(t=t, v=v, p=a)
        elif op == "alloca":
            p.eatword("inalloca")
            t = p.type(); n = None
            if p.eat(","):
                if p.word() not in ("align", "addrspace"):
                    _, n = p.tv()
            d.update(t=t, n=n)
        elif op == "getelementptr":
            while p.word() in ("inbounds", "nuw", "nusw"): p.eatword()
            st = p.type(); p.need(","); _, pv = p.tv()
            idx = []
            while p.eat(","):
                p.ws()
                if p.s[p.i] == "!": break
                it = p.type(); idx.append((it, p.value(it)))
            d.update(st=st, p=pv, idx=idx)
        elif op == "br":
            if p.eatword("label"):
                p.ws(); p.need("%"); d.update(cond=None, a=p.name())
            else:
                t = p.type(); c = p.value(t); p.need(","); p.need("label"); p.ws(); p.need("%"); a = p.name()
                p.need(","); p.need("label"); p.ws(); p.need("%"); b = p.name()
                d.update(cond=c, a=a, b=b)
        elif op == "switch":
            t = p.type(); c = p.value(t); p.need(","); p.need("label"); p.ws(); p.need("%"); dd = p.name(); p.need("[")
            cs = []
            while not p.eat("]"):
                ct = p.type(); cv = p.value(ct); p.need(","); p.need("label"); p.ws(); p.need("%"); cs.append((cv[2], p.name()))
            d.update(t=t, c=c, default=dd, cases=cs)
        elif op == "ret":
            t = p.type()
            d.update(t=t, v=None if t is VOID else p.value(t))
        elif op == "phi":
            while p.word() in FLAGS: p.eatword()
            t = p.type(); inc = []
            while True:
                p.need("["); v = p.value(t); p.need(","); p.ws(); p.need("%"); inc.append((v, p.name())); p.need("]")
                if not p.eat(","): break
                p.ws()
                if p.s[p.i] != "[": break
            d.update(t=t, inc=inc)
        elif op == "select":
            while p.word() in FLAGS: p.eatword()
            ct, c = p.tv(); p.need(","); t, a = p.tv(); p.need(","); _, b = p.tv()
            d.update(c=c, t=t, a=a, b=b)
        elif op in ("call", "invoke"):
            while p.word() in FLAGS: p.eatword()
            while p.word() in ("fastcc", "coldcc", "cc", "ccc"): p.eatword()
            p.attrs()
            while p.word() in FLAGS: p.eatword()
            t = p.type()
            if t.k == "fn": t = t.e
            p.ws()
            if p.eatword("asm"):
                return dict(op="asm", res=res, dbg=line, t=t, text=s)
            callee = p.value(PTR)
            p.need("(")
            args = []
            if callee[0] == "g" and (callee[1].startswith("llvm.dbg.") or callee[1].startswith("llvm.lifetime") or callee[1].startswith("llvm.experimental.noalias")):
                if callee[1].startswith("llvm.dbg."):
                    return None
                return None
            while not p.eat(")"):
                at = p.type(); aa = p.attrs()
                if at is META: return None
                args.append((at, p.value(at), aa))
                p.eat(",")
            d.update(t=t, callee=callee, args=args)
            if op == "invoke":
                mm = re.search(r"to label %(\"[^\"]*\"|[-A-Za-z0-9_.$]+)\s+unwind label %(\"[^\"]*\"|[-A-Za-z0-9_.$]+)", s[p.i:])
                d.update(normal=mm.group(1).strip('"'), unwind=mm.group(2).strip('"'))
        elif op == "landingpad":
            t = p.type()
            cl = re.findall(r"\b(cleanup|catch|filter)\b(?: ptr (?:@(\S+?)|null)(?:,|\s|$))?", s)
            d.update(t=t, clauses=s, catches=re.findall(r"catch ptr (@[-A-Za-z0-9_.$]+|null)", s), cleanup="cleanup" in s)
        elif op == "resume":
            t = p.type(); d.update(t=t, v=p.value(t))
        elif op in ("extractvalue", "insertvalue"):
            t, a = p.tv()
            v = None
            if op == "insertvalue":
                p.need(","); et, ev = p.tv(); v = (et, ev)
            ix = []
            while p.eat(","):
                p.ws(); mm = _num.match(p.s, p.i)
                if not mm: break
                ix.append(int(mm.group(0))); p.i = mm.end()
            d.update(t=t, a=a, v=v, ix=ix)
        elif op == "unreachable": pass
        elif op == "freeze":
            t, a = p.tv(); d.update(t=t, a=a)
        elif op == "cmpxchg" or op == "atomicrmw" or op == "fence" or op == "va_arg":
            d.update(text=s)
        elif op in ("extractelement", "insertelement", "shufflevector"):
            d.update(text=s)
        else:
            raise IRError("instruction: " + l[:120])
        return d

    def line_of(self, dbg):
        if dbg is None: return None
        x = self.md.get(dbg, "")
        m = re.search(r"line: (\d+)", x)
        return int(m.group(1)) if m else None

    # ---- DWARF: class name -> {field: (bit offset, size)} including bases
    def dwarf_fields(self, cls):
        """cls like 'Trick::JobData' -> dict name -> (byte offset, typeref)"""
        if self._dwarf is None:
            self._dwarf = {}
            for k, v in self.md.items():
                v2 = v[len("distinct "):] if v.startswith("distinct ") else v
                if v2.startswith("!DICompositeType(tag: DW_TAG_class_type") or v2.startswith("!DICompositeType(tag: DW_TAG_structure_type") or v2.startswith("!DICompositeType(tag: DW_TAG_union_type"):
                    if "DIFlagFwdDecl" in v2: continue
                    m = re.search(r'name: "([^"]*)"', v2)
                    if m: self._dwarf.setdefault(m.group(1), []).append(k)
                elif v2.startswith("!DIDerivedType(tag: DW_TAG_typedef"):
                    m = re.search(r'name: "([^"]*)"', v2); b = re.search(r"baseType: !(\d+)", v2)
                    if m and b:
                        w = self.md.get(b.group(1), "")
                        if "!DICompositeType(tag: DW_TAG_structure_type" in w: self._dwarf.setdefault(m.group(1), []).append(b.group(1))
        short = cls.split("::")[-1]
        out = {}
        for k in self._dwarf.get(short, []):
            self._members(k, 0, out)
            if out: break
        return out

    def _members(self, k, base, out):
        v = self.md[k]
        m = re.search(r"elements: !(\d+)", v)
        if not m: return
        lst = self.md.get(m.group(1), "")
        for e in re.findall(r"!(\d+)", lst):
            d = self.md.get(e, "")
            if d.startswith("distinct "): d = d[9:]
            if d.startswith("!DIDerivedType(tag: DW_TAG_member"):
                if "DIFlagStaticMember" in d: continue
                n = re.search(r'name: "([^"]*)"', d)
                o = re.search(r"offset: (\d+)", d)
                bt = re.search(r"baseType: !(\d+)", d)
                off = base + (int(o.group(1)) // 8 if o else 0)
                if n: out.setdefault(n.group(1), (off, bt.group(1) if bt else None))
                elif bt: self._members(bt.group(1), off, out)
            elif d.startswith("!DIDerivedType(tag: DW_TAG_inheritance"):
                o = re.search(r"offset: (\d+)", d)
                bt = re.search(r"baseType: !(\d+)", d)
                off = base + (int(o.group(1)) // 8 if o else 0)
                if bt: self._members(bt.group(1), off, out)

    def enum_values(self):
        """all DIEnumerator names -> values"""
        out = {}
        for v in self.md.values():
            if v.startswith("!DIEnumerator("):
                n = re.search(r'name: "([^"]*)"', v); x = re.search(r"value: (-?\d+)", v)
                out[n.group(1)] = int(x.group(1))
        return out


LINK = set("""private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr external
dso_local dso_preemptable hidden protected default unnamed_addr local_unnamed_addr fastcc ccc coldcc cc""".split())
BIN = set("add sub mul sdiv udiv srem urem and or xor shl lshr ashr fadd fsub fmul fdiv frem".split())
FLAGS = set("nsw nuw exact disjoint nneg fast nnan ninf nsz arcp contract afn reassoc samesign".split())
CASTS = set("trunc zext sext fptrunc fpext fptosi fptoui sitofp uitofp ptrtoint inttoptr bitcast addrspacecast".split())


# ---------------------------------------------------------------- CFG
def succs(f, b):
    x = f.module.insts(f, b)[-1]
    op = x["op"]
    if op == "br": return [x["a"]] if x["cond"] is None else [x["a"], x["b"]]
    if op == "switch": return [x["default"]] + [c[1] for c in x["cases"]]
    if op == "invoke": return [x["normal"], x["unwind"]]
    return []


class Loop:
    def __init__(self, h):
        self.header, self.body, self.parent = h, {h}, None


def loops(f):
    """natural loops, keyed by header"""
    if f.loops is not None: return f.loops
    order, seen = [], set()
    S = {n: succs(f, b) for n, b in f.blocks.items()}
    stack = [(f.entry, iter(S[f.entry]))]
    seen.add(f.entry)
    while stack:
        n, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s); stack.append((s, iter(S[s]))); break
        else:
            order.append(n); stack.pop()
    rpo = order[::-1]
    idx = {n: i for i, n in enumerate(rpo)}
    preds = {n: [] for n in rpo}
    for n in rpo:
        for s in S[n]: preds[s].append(n)
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for n in rpo[1:]:
            new = None
            for p in preds[n]:
                if p in idom:
                    if new is None: new = p
                    else:
                        a, b = p, new
                        while a != b:
                            while idx[a] > idx[b]: a = idom[a]
                            while idx[b] > idx[a]: b = idom[b]
                        new = a
            if idom.get(n) != new:
                idom[n] = new; ch = True

    def dom(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = idom[b]
    L = {}
    for n in rpo:
        for s in S[n]:
            if dom(s, n):
                l = L.setdefault(s, Loop(s))
                w = [n]
                while w:
                    x = w.pop()
                    if x in l.body: continue
                    l.body.add(x)
                    w += preds[x]
    for a in L.values():
        for b in L.values():
            if a is not b and a.header in b.body and (a.parent is None or len(b.body) < len(a.parent.body)):
                a.parent = b
    f.loops, f.preds, f.idom = L, preds, idom
    # immediate post-dominators are computed lazily by the executor
    return L
