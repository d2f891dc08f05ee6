"""C08: what tc_read and tc_write transfer, for every sequence of answers of the network."""
from objs import *
import models
CM = "trick_source/trick_utils/comm/src/"
EAGAIN, EINTR = 11, 4
BLOCK, NOBLOCK, TIMED, ALL = 0, 1, 2, 3
STREAM, DGRAM = 1, 2
Z = z3.IntVal


def P(ex, s, g, t, kind="post"): ex.prove(s, g if not isinstance(g, bool) else z3.BoolVal(g), t, kind, assume=False)


def with_(s, c):
    t = s.fork(); t.add(c); return t


def transfer(fname, src, call, wr):
    def run(ctx):
        ex = ctx.exec(mode="int", fmode="real"); st = State(); m = ex.modules[0]
        dev = ex.struct_obj(m, "TCDevice", "device")
        size = z3.Int("size"); st.add(And(size >= 0, size < 2 ** 31 - 1))
        buf = ex.new_obj("buffer", size, None, "obj"); buf.regions.append(Region(0, 1, size)); buf.readonly = True          # only the network stores into it
        D = lambda s, f, k="i32": ex.getf(s, dev, f, k)
        sock, mode, kind, dis, limit = (zint(D(st, f)) for f in ("socket", "blockio_type", "socket_type", "disabled")) if False else (zint(D(st, "socket")), zint(D(st, "blockio_type")), zint(D(st, "socket_type")), zint(D(st, "disabled")), rv(D(st, "blockio_limit", "double")))
        st.add(And(mode >= 0, mode <= 3))
        err = ex.new_obj("errno", 4, None, "obj"); c = st.cells(err, True); e0 = z3.Int("errno0"); c[0] = (4, "i32", e0)
        st.ghost.update(got=G(Z(0)), last=G(Z(1)), err=G(Z(0)), gone=G(Z(0)), used=G(Z(0)), delta=G(z3.RealVal(0)))
        g = lambda s, k: s.ghost[k].v
        wouldblock = lambda s: And(g(s, "last") == -1, g(s, "err") == EAGAIN)
        broken = lambda s: Or(And(g(s, "last") == 0, not wr), And(g(s, "last") == -1, g(s, "err") != EAGAIN, g(s, "err") != EINTR))

        def anyerr(s): e = ex.fresh("i32", "errno", s); s.cells(err, True)[0] = (4, "i32", e)

        def net(ex, s, a, x):
            p = a[1]; at = g(s, "got")
            P(ex, s, Eq(a[0], sock), "the transfer is on the device's own socket", "call"); P(ex, s, g(s, "gone") == 0, "nothing is transferred after the connection is gone", "call")
            ok = isinstance(p, Ptr) and p.obj is buf
            P(ex, s, ok, "the transfer is from or to the caller's buffer", "call")
            if not ok: raise Unsupported("a transfer from elsewhere")
            n = zint(a[2])
            P(ex, s, zint(models.index_in(ex, buf.regions[0], p)) == at, "each part follows the one before without a gap", "call")
            P(ex, s, And(n >= 0, at + n <= size), "no part reaches beyond the caller's buffer", "call"); P(ex, s, z3.Implies(at < size, n >= 1), "something is asked for while something is missing", "call")
            P(ex, s, Or(g(s, "used") == 0, g(s, "last") > 0, And(g(s, "last") == 0, wr), And(g(s, "last") == -1, Or(g(s, "err") == EINTR, g(s, "err") == EAGAIN))), "no further transfer after a failure", "call")
            r = ex.fresh("i64", "transferred", s); e = ex.fresh("i32", "net_errno", s); s.add(And(r >= -1, r <= n))
            s.cells(err, True)[0] = (4, "i32", z3.If(r < 0, e, zint(s.mem[err.id][0][2])))
            s.ghost.update(got=G(z3.If(r > 0, at + r, at)), last=G(r), err=G(z3.If(r < 0, e, 0)), used=G(Z(1)))
            return r

        def gone(ex, s, a, x):
            P(ex, s, ex.pcmp(s, "eq", a[0], Ptr(dev)), "the device itself is disconnected", "call"); P(ex, s, broken(s), "only a broken connection is given up", "call")
            s.ghost["gone"] = G(g(s, "gone") + 1); anyerr(s); ex.setf(s, dev, "socket", -1, "i32"); return 0

        def clock(ex, s, a, x):
            anyerr(s); d = ex.fresh("double", "elapsed", s); s.ghost["delta"] = G(rv(d)); return d

        def clock0(ex, s, a, x): anyerr(s); return ex.fresh("double", "start", s)

        def noise(ex, s, a, x): anyerr(s); return 0
        ex.handlers.update({call: net, "tc_disconnect": gone, "tc_clock_time": clock, "tc_clock_init": clock0, "trick_error_report": noise, "snprintf": noise, "usleep": noise, "strerror": lambda ex, s, a, x: a and Ptr(err), "__errno_location": lambda ex, s, a, x: Ptr(err)})

        def cands(V):
            s = V.st; at = g(s, "got")
            c = [("got", And(at >= 0, at <= size)), ("got kept", at == g(V.entry, "got")), ("connected", g(s, "gone") == 0), ("unused", And(g(s, "used") == 0, at == 0)), ("last", And(g(s, "last") >= -1, g(s, "last") <= size)), ("used", Or(g(s, "used") == 0, g(s, "used") == 1)),
                 ("going on", Or(g(s, "used") == 0, g(s, "last") > 0, And(g(s, "last") == 0, wr), wouldblock(s), And(g(s, "last") == -1, g(s, "err") == EINTR))), ("a datagram ends it", z3.Implies(kind == DGRAM, at == 0) if not wr else z3.BoolVal(True)), ("no break", Not(broken(s))), ("not interrupted", Or(g(s, "last") >= 0, g(s, "err") != EINTR)),
                 ("waiting", z3.Implies(wouldblock(s), Or(mode == BLOCK, mode == TIMED, And(mode == ALL, at > 0)))), ("in time", z3.Implies(And(mode == TIMED, g(s, "used") == 1), g(s, "delta") <= limit)), ("in time, if not done", z3.Implies(And(mode == TIMED, g(s, "used") == 1, at < size), g(s, "delta") <= limit)), ("missing", at < size)]
            for n_, x in V.all_ints():
                x = zint(x)
                c += [("%s = got" % (n_,), x == at), ("%s = missing" % (n_,), Or(x == size - at, at == size)), ("%s = missing." % (n_,), x == size - at), ("%s = last" % (n_,), Or(x == g(s, "last"), g(s, "used") == 0))]
            for n_, v in V.all_ptrs():
                if isinstance(v, Ptr) and v.obj is buf: c += [("%s = place" % (n_,), Or(zint(models.index_in(ex, buf.regions[0], v)) == at, at == size)), ("%s = place." % (n_,), zint(models.index_in(ex, buf.regions[0], v)) == at)]
            return c
        ex.cands_fn = cands; ex.loop_policy = "inv"
        ctx.cover(ex, st, "precondition")
        who = [("no device", NULL), ("device", Ptr(dev))]
        done = {k: [] for k in ("all", "would block", "timed out", "failed in the middle")}
        for nm, d in who:
            for o in ex.call(st.fork(), ex.find_fn(fname), [d, Ptr(buf), size, NULL, Z(0)]):
                s = o.st; r = zint(o.val); at = g(s, "got")
                if nm == "no device":
                    P(ex, s, And(r == -1, g(s, "used") == 0), "without a device nothing is transferred"); continue
                usable = And(dis == 0, sock != -1); used = g(s, "used") == 1; fail = And(used, broken(s))
                P(ex, s, z3.Implies(Not(usable), And(r == -1, g(s, "used") == 0, g(s, "gone") == 0)), "a disabled or unconnected device transfers nothing and says so")
                P(ex, s, Or(r == at, And(r == -1, at == 0)), "the number returned is the number of bytes transferred")
                P(ex, s, And(r >= -1, r <= size), "never more than was asked for")
                P(ex, s, z3.Implies(And(usable, r == -1), And(wouldblock(s), Or(mode == NOBLOCK, mode == ALL))), "-1 only where nothing could be transferred without waiting, and waiting is not allowed")
                P(ex, s, z3.Implies(And(usable, used, at == 0, wouldblock(s), Or(mode == NOBLOCK, mode == ALL)), r == -1), "nothing transferred without waiting is reported as -1")
                P(ex, s, z3.Implies(fail, And(g(s, "gone") == 1, r == at)), "a broken connection is given up, and what was transferred before is reported")
                P(ex, s, z3.Implies(Not(fail), g(s, "gone") == 0), "nothing else gives up the connection")
                dg = And(kind == DGRAM, g(s, "last") > 0) if not wr else z3.BoolVal(False)
                P(ex, s, z3.Implies(And(usable, r != size), Or(fail, dg, And(mode == TIMED, g(s, "delta") > limit), And(mode == NOBLOCK, wouldblock(s)), And(mode == ALL, wouldblock(s), at == 0))), "a transfer comes back short only for a failure, a datagram, the end of the time allowed, or where waiting is not allowed")
                P(ex, s, z3.Implies(And(usable, mode == BLOCK, Not(fail), Not(dg)), r == size), "a blocking transfer is complete")
                P(ex, s, z3.Implies(And(usable, mode == ALL, Not(fail), Not(dg)), Or(r == size, r == -1)), "all or nothing")
                for f in ("blockio_type", "socket_type", "disabled"): P(ex, s, Eq(D(s, f), zint(D(st, f))), "the device's %s is as before" % f, "frame")
                for k, cnd in (("all", And(usable, r == size)), ("would block", And(usable, r == -1)), ("timed out", And(usable, r < size, mode == TIMED, Not(fail))), ("failed in the middle", And(fail, r > 0))):
                    done[k].append(with_(s, cnd))
        for k, l in done.items(): ctx.cover_some(ex, l, k)
    return Contract(fname.rstrip("_"), run, [src], [fname], timeout=400)


CS = [transfer("tc_read_", CM + "tc_read.c", "recvfrom", False), transfer("tc_write_", CM + "tc_write.c", "sendto", True)]
CHECK = Check("C08", CS, Native("native/c08.cpp", [CM + "tc_read.c", CM + "tc_write.c"], flags=("-Drecvfrom=c08_recvfrom", "-Dsendto=c08_sendto", "-Dusleep=c08_usleep")), trusted=[
    "recvfrom and sendto return -1 with errno set, or a number from 0 to the length given, and recvfrom stores exactly that many bytes at the address given",
    "tc_disconnect, tc_clock_init, tc_clock_time, usleep, snprintf and trick_error_report may change errno and nothing else of the device but its socket, and never the caller's buffer",
    "sizes from 0 to 2^31-2, block modes 0 to 3; termination (a network that never answers) is not decided"])
