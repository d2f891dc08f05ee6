"""C07: byte-order conversion reverses exactly the bytes of each element."""
from drv import *
CM = "trick_source/trick_utils/comm/src/"
LOG = "trick_source/data_products/Log/trick_byteswap.cpp"
VR = "trick_source/sim_services/VariableServer/VariableReference.cpp"


def scalar(src, name, n, f):
    def run(ctx):
        ex = ctx.exec(mode="bv", fmode="bits", loop_policy="unroll", unroll_limit=40)
        st = State()
        x = z3.BitVec("x", n)
        want = z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(n // 8)])
        for o in ex.call(st, ex.find_fn(name), [x]):
            assert o.kind == "ret"
            ex.prove(o.st, o.val == want, "the result has exactly the input's bytes in reverse order")
            ctx.cover(ex, o.st, "return")
            for o2 in ex.call(o.st, ex.find_fn(name), [o.val]):
                ex.prove(o2.st, o2.val == x, "applied twice it gives back the input")
    return Contract("%s(%s)" % (name, src.split("/")[-1]), run, [src], [name])


# ---- buffers of arrays: the element swap is used through its contract (verified above)
SW = {2: ("trick_byteswap_short", "i16", z3.IntSort()), 4: ("trick_byteswap_int", "i32", z3.IntSort()), 8: ("trick_byteswap_double", "double", z3.BitVecSort(64))}


def buffer_contract(fname, src, size, nidx, inplace, single, wrap=None):
    def run(ctx):
        kind = {1: "i8"}.get(size) or SW[size][1]
        hs = {}
        for s, (n, k, so) in SW.items():
            hs[n] = (lambda k, n: (lambda ex, st, a, x: ex.uf("swap_" + n, ex.sort_of(k), ex.sort_of(k))(ex.idx(a[0]) if k != "double" else a[0])))(k, n)
        hs["trick_byteswap_float"] = lambda ex, st, a, x: ex.uf("swapf", ex.sort_of("float"), ex.sort_of("float"))(a[0])
        hs["trick_byteswap_long"] = lambda ex, st, a, x: ex.uf("swapl", z3.IntSort(), z3.IntSort())(a[0])

        box = {}

        def cands(V):
            if "out" not in box: return []
            out, inn, in0, out0, num = box["out"], box["in"], box["in0"], box["out0"], box["num"]
            cur = ex.arr_get(V.st, out.obj, out.obj.regions[0], 0, kind)
            i = z3.Int("qi")
            r = []
            for nm, x in [("k", V.k)] + [("v%d" % j, x) for j, x in enumerate(V.ints)]:
                x = zint(x)
                r.append(("prefix converted (%s)" % nm, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < x), cur.get(i) == box["f"](in0.get(i))))))
                r.append(("rest untouched (%s)" % nm, z3.ForAll([i], z3.Implies(z3.Or(i < 0, i >= x), cur.get(i) == out0.get(i)))))
                r.append(("in range (%s)" % nm, z3.And(x >= 0, z3.Or(x <= num, x == 0))))
                r.append(("counts (%s)" % nm, x == zint(V.k)))
            return r
        ex = ctx.exec(mode="int", fmode="bits", handlers=hs, cands=cands, patterns=[])
        m = ex.modules[0]
        st = State()
        t = m.named("struct.ATTRIBUTES_tag")
        F = m.dwarf_fields("ATTRIBUTES_tag")
        sz = ir.sizeof(t)
        at = ex.new_obj("attr", 2 * sz, ir.T("arr", n=2, e=t), "obj")
        at.readonly = True
        nm = ex.new_obj("name", 8, None, "obj"); nm.readonly = True
        em = ex.new_obj("empty", 1, None, "obj"); em.readonly = True
        c = st.cells(nm, True); c[0] = (1, "i8", z3.Int("ch")); st.add(z3.And(z3.Int("ch") != 0, z3.Int("ch") >= -128, z3.Int("ch") < 128))
        st.cells(em, True)[0] = (1, "i8", 0)
        A = st.cells(at, True)
        off = z3.Int("offset"); st.add(z3.And(off >= 0, off < 2 ** 40))
        typ = z3.Int("type")
        EV = m.enum_values()
        for bad in ("TRICK_STRUCTURED", "TRICK_BITFIELD", "TRICK_UNSIGNED_BITFIELD"):
            st.add(typ != EV[bad])
        A[F["name"][0]] = (8, "ptr", Ptr(nm))
        A[F["type"][0]] = (4, "i32", typ)
        A[F["size"][0]] = (4, "i32", size)
        A[F["offset"][0]] = (8, "i64", off)
        A[F["num_index"][0]] = (4, "i32", nidx)
        num = z3.IntVal(1)
        for j in range(nidx):
            d = z3.Int("dim%d" % j); st.add(z3.And(d >= 1, d < 2 ** 31))
            A[F["index"][0] + 8 * j] = (4, "i32", d)
            num = d if j == 0 else num * d
        if nidx: st.add(z3.And(num >= 1, num < 2 ** 31 // size))
        A[sz + F["name"][0]] = (8, "ptr", Ptr(em))
        N = z3.Int("N"); st.add(N == num)
        i_o = ex.new_obj("in", None, None, "obj"); i_o.regions.append(Region(0, size, N)); i_o.elem = kind; i_o.size = N * size
        if inplace: o_o = i_o
        else:
            i_o.readonly = True
            o_o = ex.new_obj("out", None, None, "obj"); o_o.regions.append(Region(0, size, N)); o_o.elem = kind; o_o.size = N * size
        # pointers such that base + offset is the start of the element block
        po = Ptr(o_o, 0, [] if single else [(1, -off)])
        pi = Ptr(i_o, 0, [] if single else [(1, -off)])
        box.update(out=po, num=N)
        box["in"] = pi
        box["in0"] = ex.arr_get(st, i_o, i_o.regions[0], 0, kind)
        box["out0"] = ex.arr_get(st, o_o, o_o.regions[0], 0, kind)
        box["f"] = (lambda v: v) if size == 1 else ex.uf("swap_" + SW[size][0], ex.sort_of(kind), ex.sort_of(kind))
        ctx.cover(ex, st, "precondition")
        fn = ex.find_fn(fname) or (ex.find_fn(ex.find_demangled(fname)[0]) if ex.find_demangled(fname) else None)
        if fn is None: raise Unsupported("function %s not found" % fname)
        args = wrap(ctx, ex, st, po, pi, at) if wrap else [po, pi, Ptr(at), z3.Int("tofrom")]
        for o in ex.call(st, fn, args):
            assert o.kind == "ret"
            cur = ex.arr_get(o.st, o_o, o_o.regions[0], 0, kind)
            i = z3.Int("qi")
            ex.prove(o.st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), cur.get(i) == box["f"](box["in0"].get(i)))), "every element is the input element byte-swapped")
            ex.prove(o.st, z3.ForAll([i], z3.Implies(z3.Or(i < 0, i >= N), cur.get(i) == box["out0"].get(i))), "nothing outside the elements changes")
            if not wrap: ex.prove(o.st, ex.pcmp(o.st, "eq", o.val, po), "returns the output buffer")
            ctx.cover(ex, o.st, "return")
    return Contract("%s(size %d, %d dims%s)" % (fname.split("::")[-1], size, nidx, ", in place" if inplace else ""), run, [src], [fname],
                    bounded=None if single else "attribute lists of one entry; array extents unbounded")


def vr_args(ctx, ex, st, po, pi, at):
    """a VariableReference whose _var_info->attr is the attribute object"""
    m = ex.modules[0]
    F = m.dwarf_fields("Trick::VariableReference"); R = m.dwarf_fields("REF2")
    vi = ex.new_obj("ref2", None, None, "obj"); vr = ex.struct_obj(m, "Trick::VariableReference", "ref")
    vi.readonly = vr.readonly = True
    st.cells(vi, True)[R["attr"][0]] = (8, "ptr", Ptr(at))
    st.cells(vr, True)[F["_var_info"][0]] = (8, "ptr", Ptr(vi))
    return [po, pi, Ptr(vr)]


CS = []
for src in (CM + "trick_byteswap.c", LOG):
    for name, n, f in (("trick_byteswap_double", 64, 1), ("trick_byteswap_float", 32, 1), ("trick_byteswap_long", 64, 0), ("trick_byteswap_int", 32, 0),
                       ("trick_byteswap_short", 16, 0)):
        CS.append(scalar(src, name.replace("trick_byteswap", "tbs") if src == LOG else name, n, f))
CS.append(scalar(LOG, "tbs_long_long", 64, 0))
for size in (1, 2, 4, 8):
    for ip in (False, True):
        CS.append(buffer_contract("trick_bswap_buffer", CM + "trick_bswap_buffer.c", size, 2, ip, False))
        CS.append(buffer_contract("trick_bswap_single_parameter", CM + "trick_bswap_single_parameter.c", size, 2, ip, True))
    CS.append(buffer_contract("trick_bswap_buffer", CM + "trick_bswap_buffer.c", size, 0, False, False))
    CS.append(buffer_contract(r"Trick::VariableReference::byteswap_var\(char\*, char\*, Trick::VariableReference const&\)", VR, size, 2, False, True, vr_args))



def struct_recursion(fname, src):
    """an array of 3 structures: every element is converted by the recursive contract at its own place"""
    def run(ctx):
        calls = []

        def rec(ex, st, a, x):
            st.ghost["calls"] = st.ghost.get("calls", ()) + ((a[0], a[1], a[2], a[3]),)
            return a[0]
        ex = ctx.exec(mode="int", fmode="bits")
        st = State()
        m = ex.modules[0]
        t = m.named("struct.ATTRIBUTES_tag"); F = m.dwarf_fields("ATTRIBUTES_tag"); sz = ir.sizeof(t)
        at = ex.new_obj("attr", 2 * sz, ir.T("arr", n=2, e=t), "obj"); at.readonly = True
        nm = ex.new_obj("name", 8, None, "obj"); em = ex.new_obj("empty", 1, None, "obj")
        st.cells(nm, True)[0] = (1, "i8", 65); st.cells(em, True)[0] = (1, "i8", 0)
        A = st.cells(at, True)
        off, es, tf = z3.Int("offset"), z3.Int("size"), z3.Int("tofrom")
        st.add(z3.And(off >= 0, off < 2 ** 30, es >= 1, es < 2 ** 20))
        sub = ex.new_obj("subattr", None, None, "obj")
        A[F["name"][0]] = (8, "ptr", Ptr(nm)); A[F["type"][0]] = (4, "i32", m.enum_values()["TRICK_STRUCTURED"]); A[F["size"][0]] = (4, "i32", es)
        A[F["offset"][0]] = (8, "i64", off); A[F["num_index"][0]] = (4, "i32", 1); A[F["index"][0]] = (4, "i32", 3); A[F["attr"][0]] = (8, "ptr", Ptr(sub))
        A[sz + F["name"][0]] = (8, "ptr", Ptr(em))
        oo, io = ex.new_obj("out", z3.Int("osz"), None, "obj"), ex.new_obj("in", z3.Int("isz"), None, "obj")
        # the outermost call runs the body, inner calls the contract
        ex.handlers["trick_bswap_buffer"] = rec
        fn = ex.find_fn(fname)
        for o in ex.call(st, fn, [Ptr(oo), Ptr(io), Ptr(at), tf]):
            cs = o.st.ghost.get("calls", ())
            ex.prove(o.st, len(cs) == 3, "each of the structures is converted exactly once")
            for j, (a, b, c, d) in enumerate(cs[:3]):
                ex.prove(o.st, z3.And(ex.off(a) == off + j * es, ex.off(b) == off + j * es), "structure %d is converted in its own place" % j)
                ex.prove(o.st, And(ex.pcmp(o.st, "eq", c, Ptr(sub)), Eq(d, tf), a.obj is oo, b.obj is io), "with its own attributes and direction")
            ctx.cover(ex, o.st, "return")
    return Contract("%s(structures)" % fname, run, [src], [fname], bounded="arrays of 3 structures")


def rw(fname, src, inner, wr):
    """tc_read_byteswap / tc_write_byteswap over the contracts of tc_read, tc_write and trick_bswap_buffer"""
    def run(ctx):
        def h_inner(ex, st, a, x):
            r = z3.Int(ex.fresh_name("transferred")); st.add(z3.And(r >= -1, r <= zint(a[2]))); st.ghost["t"] = st.ghost.get("t", ()) + (("io", a[0], a[1], a[2], r),)
            return r

        def h_sw(ex, st, a, x):
            st.ghost["t"] = st.ghost.get("t", ()) + (("swap", a[0], a[1], a[2], a[3]),)
            return a[0]

        def h_get(ex, st, a, x):
            return Ptr(sb) if st.ghost["have"] else NULL

        def h_set(ex, st, a, x):
            st.ghost["set"] = a[1]
            return 0
        noop = lambda ex, st, a, x: 0
        for have in (True, False):
            ex = ctx.exec(mode="int", fmode="bits", handlers={inner: h_inner, "trick_bswap_buffer": h_sw, "pthread_getspecific": h_get, "pthread_setspecific": h_set,
                                                              "pthread_once": noop, "trick_error_report": noop, "pthread_key_create": noop})
            st = State(); st.ghost["have"] = have
            m = ex.modules[0]
            dev = ex.struct_obj(m, "TCDevice", "device"); dev.readonly = True
            size = z3.Int("size"); st.add(z3.And(size >= 1, size < 2 ** 31 - 4))
            buf = ex.new_obj("buffer", size, None, "obj"); buf.readonly = wr
            at = ex.new_obj("attr", None, None, "obj")
            sb = None
            if have:
                sb = ex.struct_obj(m, "SwapBuffer", "swapbuf")
                n = z3.Int("cap"); st.add(z3.And(n >= 0, n < 2 ** 31))
                sp = ex.new_obj("swapspace", n, None, "heap")
                ex.setf(st, sb, "size", n, "i32"); ex.setf(st, sb, "swap_space", Ptr(sp))
            bo = ex.getf(st, dev, "byte_info", "i8") if False else None
            ctx.cover(ex, st, "precondition")
            for o in ex.call(st, ex.find_fn(fname), [Ptr(dev), Ptr(buf), size, Ptr(at)]):
                T = o.st.ghost.get("t", ())
                kinds = [t[0] for t in T]
                if kinds == ["io"]:
                    _, d, b, s, r = T[0]
                    ex.prove(o.st, And(ex.pcmp(o.st, "eq", b, Ptr(buf)), Eq(s, size), ex.pcmp(o.st, "eq", d, Ptr(dev)), Eq(r, o.val)), "same byte order: the transfer is passed straight through")
                    k = "same"
                else:
                    want = ["swap", "io"] if wr else ["io", "swap"]
                    ex.prove(o.st, kinds == want, "other byte order: one transfer and one conversion, in this order")
                    if kinds != want: continue
                    io_, sw = (T[1], T[0]) if wr else (T[0], T[1])
                    ex.prove(o.st, And(Eq(io_[3], size), ex.pcmp(o.st, "eq", io_[1], Ptr(dev)), Eq(io_[4], o.val)), "the whole size is transferred and its result returned")
                    src, dst = (Ptr(buf), sw[1]) if wr else (sw[2], Ptr(buf))
                    ex.prove(o.st, And(ex.pcmp(o.st, "eq", sw[2] if wr else sw[1], Ptr(buf)), ex.pcmp(o.st, "eq", io_[2], sw[1] if wr else sw[2]),
                                       Eq(sw[4], 1 if wr else 0), ex.pcmp(o.st, "eq", sw[3], Ptr(at))), "the conversion is between the caller's buffer and the transferred one")
                    sp2 = io_[2]
                    ex.prove(o.st, And(isinstance(sp2, Ptr) and isinstance(sp2.obj, Obj) and sp2.obj is not buf and sp2.same(Ptr(sp2.obj)),
                                       zint(sp2.obj.size) >= size if sp2.obj.size is not None else False), "the intermediate buffer is large enough")
                    k = "swapped"
                ctx.cover(ex, o.st, k)
    return Contract(fname, run, [src], [fname])


CS.append(struct_recursion("trick_bswap_buffer", CM + "trick_bswap_buffer.c"))
CS.append(struct_recursion("trick_bswap_single_parameter", CM + "trick_bswap_single_parameter.c"))
CS.append(rw("tc_read_byteswap", CM + "tc_read_byteswap.c", "tc_read_", False))
CS.append(rw("tc_write_byteswap", CM + "tc_write_byteswap.c", "tc_write_", True))
CHECK = Check("C07", CS, Native("native/c07.cpp", [CM + "trick_byteswap.c", CM + "trick_bswap_buffer.c", CM + "trick_bswap_single_parameter.c", LOG]),
              trusted=["bit-field members are outside this property", "pthread_getspecific/setspecific return what was stored per thread"])
