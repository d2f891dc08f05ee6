"""C06: bit-field reads and writes touch exactly their own bits."""
from drv import *
D = "trick_source/sim_services/MemoryManager/"
BV = lambda n, v: z3.BitVecVal(v, n)


def pre(ex, st, size):
    w = 8 * size
    start, bits = z3.BitVec("start", 32), z3.BitVec("bits", 32)
    st.add(z3.And(bits >= 1, bits <= w, start >= 0, start <= w, start + bits <= w))
    return start, bits, w


def field(word, start, bits, w):
    """the `bits` bits of `word` that start `start` bits below the top of the w-bit unit, as an unsigned value"""
    lsb = w - start - bits
    mask = z3.LShR(BV(32, 0xFFFFFFFF), 32 - bits)
    return z3.LShR(word, lsb) & mask, lsb, mask


def sext(v, bits):
    sh = 32 - bits
    return (v << sh) >> sh


def extract(name, src, signed, size):
    def run(ctx):
        ex = ctx.exec(mode="bv", fmode="bits", loop_policy="unroll", unroll_limit=34)
        st = State()
        start, bits, w = pre(ex, st, size)
        word = z3.BitVec("word", 32)
        if size != 4:
            # the macros pass the stored unit converted to int/unsigned int: the upper bits are arbitrary extensions
            pass
        ctx.cover(ex, st, "precondition")
        f, _, _ = field(word, start, bits, w)
        want = sext(f, bits) if signed else f
        for o in ex.call(st, ex.find_fn(name), [word, size, start, bits]):
            assert o.kind == "ret"
            ex.prove(o.st, o.val == want, "returns exactly the field's bits%s" % (", sign-extended" if signed else ""))
            ctx.cover(ex, o.st, "return")
    return Contract("%s(size %d)" % (name, size), run, [D + src], [name], passes="sroa,simplifycfg")


def insert(size):
    def run(ctx):
        ex = ctx.exec(mode="bv", fmode="bits", loop_policy="unroll", unroll_limit=34)
        st = State()
        start, bits, w = pre(ex, st, size)
        word, value = z3.BitVec("word", 32), z3.BitVec("value", 32)
        ctx.cover(ex, st, "precondition")
        _, lsb, mask = field(word, start, bits, w)
        g = ex.global_obj("insert_bitfield_any.numbits", ex.modules[0]) if ex.modules[0].global_def("insert_bitfield_any.numbits") else None
        if g is not None: g.init = g.ginit       # static local: initialised once and (checked below) never written
        for o in ex.call(st, ex.find_fn("insert_bitfield_any"), [word, value, size, start, bits]):
            r = o.val
            ex.prove(o.st, (r & ~(mask << lsb)) == (word & ~(mask << lsb)), "every bit outside the field is unchanged")
            ex.prove(o.st, (z3.LShR(r, lsb) & mask) == (value & mask), "the field holds the low bits of the value")
            if g is not None:
                ex.prove(o.st, ex.load(o.st, Ptr(g), ir.I(32)) == 32, "static state unchanged", "frame")
            ctx.cover(ex, o.st, "return")
    return Contract("insert_bitfield_any(size %d)" % size, run, [D + "insert_bitfield.c"], ["insert_bitfield_any"], passes="sroa,simplifycfg")


def macros(kind):
    """GET/PUT macros of bitfield_proto.h, as compiled into a driver that only applies them"""


CS = []
for s in (1, 2, 4):
    CS.append(extract("extract_bitfield_any", "extract_bitfield.c", True, s))
    CS.append(extract("extract_unsigned_bitfield_any", "extract_unsigned_bitfield.c", False, s))
    CS.append(insert(s))

CHECK = Check("C06", CS, Native("native/c06.cpp", [D + "extract_bitfield.c", D + "extract_unsigned_bitfield.c", D + "insert_bitfield.c"]),
              trusted=["bit-field widths and positions come from the compiler-generated attributes (1 <= bits, start + bits <= storage width)"])
