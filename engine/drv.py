"""Driver: compiles /repo's current sources, runs the contracts of a property, replays failures on the real code, writes evidence."""
import os, sys, time, json, subprocess, tempfile, shutil, traceback, hashlib, multiprocessing as mp, threading, signal, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = ["include", "include/trick/compat", "trick_source", "trick_source/er7_utils/CheckpointHelper", "trick_source/trick_utils/SAIntegrator/include",
       "trick_source/trick_utils/compareFloatingPoint/include", "trick_source/trick_utils/unicode/include"]
import z3
import ir
from exec import Exec, State, Outcome, Infeasible, Fork
from vals import *


FOLD = "sroa,early-cse,simplifycfg,early-cse,simplifycfg"     # small branches become conditional values


class CompileError(Exception): pass


class Build:
    def __init__(self, scratch):
        self.scratch = scratch
        self.lock = threading.Lock()
        self.done = {}

    def cmd(self, src, flags, native=False):
        cxx = src.endswith((".cpp", ".cc"))
        c = ["clang++", "-std=c++17"] if cxx else ["clang", "-std=gnu11"]
        c += ["-I" + os.path.join(REPO, i) for i in INC] + ["-I" + os.path.dirname(os.path.join(REPO, src))]
        c += ["-DTRICK_VER=19", "-w"] + list(flags)
        return c

    def ll(self, src, flags=(), passes="sroa"):
        """LLVM IR of one source file (repository relative, or absolute for driver files of /verif)"""
        key = (src, tuple(flags), passes)
        with self.lock:
            ev = self.done.get(key)
            if ev is None:
                ev = self.done[key] = [threading.Event(), None]
                mine = True
            else: mine = False
        if not mine:
            ev[0].wait()
            if isinstance(ev[1], Exception): raise ev[1]
            return ev[1]
        try:
            path = src if os.path.isabs(src) else os.path.join(REPO, src)
            base = os.path.join(self.scratch, hashlib.sha1(repr(key).encode()).hexdigest()[:16])
            c = self.cmd(src, flags) + ["-O0", "-g", "-fstandalone-debug", "-ffp-contract=off", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names",
                                        "-S", "-emit-llvm", path, "-o", base + ".ll"]
            r = subprocess.run(c, capture_output=True, text=True)
            if r.returncode: raise CompileError("clang failed on %s:\n%s" % (src, r.stderr[-3000:]))
            opts = ["-phi-node-folding-threshold=50", "-two-entry-phi-node-folding-threshold=50", "-speculate-one-expensive-inst"] if "early-cse" in passes else []
            r = subprocess.run(["opt", "-S", "-passes=" + passes] + opts + [base + ".ll", "-o", base + ".s.ll"], capture_output=True, text=True)
            if r.returncode: raise CompileError("opt failed on %s:\n%s" % (src, r.stderr[-2000:]))
            ev[1] = base + ".s.ll"
        except Exception as e:
            ev[1] = e
        ev[0].set()
        if isinstance(ev[1], Exception): raise ev[1]
        return ev[1]

    def prefetch(self, keys):
        with ThreadPoolExecutor(8) as p:
            fs = [p.submit(self.ll, *k) for k in keys]
            for f in fs: f.result()


class Contract:
    def __init__(self, name, fn, sources, functions=(), timeout=240, flags=(), bounded=None, passes="sroa"):
        self.passes = passes
        self.name, self.fn, self.sources, self.functions, self.timeout, self.flags, self.bounded = name, fn, list(sources), list(functions), timeout, tuple(flags), bounded


class Ctx:
    """what a contract sees"""

    def __init__(self, check, c):
        self.check, self.c = check, c
        self.execs = []
        self.known = set()
        self.covers = []
        self.fns = set(c.functions)
        self.tier, self.seed = check.tier, check.seed

    _mods = {}

    def modules(self, *srcs, flags=None):
        flags = self.c.flags if flags is None else flags
        r = []
        for s in (srcs or self.c.sources):
            p = self.check.build.ll(s, flags, self.c.passes)
            if p not in Ctx._mods: Ctx._mods[p] = ir.Module(p, s)
            r.append(Ctx._mods[p])
        return r

    def exec(self, mods=None, **kw):
        ex = Exec(mods or self.modules(), **kw)
        ex.tag = self.c.name
        ex.deadline = time.time() + self.c.timeout
        self.execs.append(ex)
        return ex

    def under(self, *names):
        for n in names: self.fns.add(n)

    def prove_or_known(self, ex, st, goal, known, text, key):
        """goal, or - while the defect is listed under this key - exactly the behaviour the known finding describes"""
        if key in self.check.known:
            if not ex.recording or ex._prove(st, goal)[0] == "proved": ex.prove(st, goal, text, assume=False); return
            if ex.prove(st, known, text + " (known finding %s: exactly as recorded)" % key, assume=False): self.known.add(key)
        else: ex.prove(st, goal, text, assume=False)

    def cover_some(self, ex, sts, what):
        """at least one of the paths must be reachable"""
        ok = False
        for st in sts:
            if ex._check(st.pc, 10)[0] == z3.unsat: continue
            if st.qpc and ex._check(st.pc + st.qpc, 5)[0] == z3.unsat: continue
            ok = True; break
        self.covers.append((what, ok, id(ex)))

    def cover(self, ex, st, what):
        """the path (or another one of this name) must be reachable: guards against vacuous proofs"""
        if (what, True, id(ex)) in self.covers: self.covers.append((what, True, id(ex))); return
        r, _ = ex._check(st.pc, 10)
        bad = r == z3.unsat
        if not bad and st.qpc:
            r2, _ = ex._check(st.pc + st.qpc, 5)
            bad = r2 == z3.unsat
        self.covers.append((what, not bad, id(ex)))

    def result(self):
        ob, asm, called, inl, inv = [], set(), set(), set(), []
        stime, nq = 0.0, 0
        for ex in self.execs:
            for o in ex.obl:
                m = o.pop("model", None)
                if m is not None:
                    try:
                        d = {}
                        for dd in m.decls():
                            if dd.arity() == 0: d[dd.name()] = str(m[dd])
                        o["counterexample"] = dict(sorted(d.items())[:80])
                    except Exception: pass
                ob.append(o)
            asm |= ex.assumed
            called |= {ex.demangle(n) for n in ex.called if n}
            inl |= {ex.demangle(n) for n in ex.inlined}
            inv += ex.inv_report
            stime += ex.solver_time; nq += ex.nqueries
        grp = {}
        for n, ok, e in self.covers: grp[(n, e)] = grp.get((n, e), False) or ok       # of the paths of one run with the same name, one must be reachable
        for (n, e), ok in grp.items():
            if not ok: ob.append(dict(name="%s: reachable: %s" % (self.c.name, n), kind="vacuity", status="failed", backend="z3", time=0.0))
        return dict(name=self.c.name, obl=ob, assumed=sorted(asm), external=sorted(called - inl), inlined=sorted(inl), functions=sorted(self.fns), invariants=inv,
                    solver_time=round(stime, 2), queries=nq, covers=len(self.covers), bounded=self.c.bounded, known=sorted(self.known))


def _worker(check, c, conn):
    os.setpgrp()
    sys.setrecursionlimit(20000)
    t0 = time.time()
    ctx = Ctx(check, c)
    try:
        c.fn(ctx)
        r = ctx.result()
        r["error"] = None
    except CompileError as e:
        r = ctx.result(); r["error"] = "compile: " + str(e)
    except (Unsupported, ir.IRError) as e:
        r = ctx.result(); r["error"] = "not within the verifier's reach: %s" % e
        if os.environ.get("VERIF_DEBUG"): r["error"] += "\n" + traceback.format_exc()
    except RecursionError as e:
        r = ctx.result(); r["error"] = "recursion"
    except Exception as e:
        r = ctx.result(); r["error"] = "verifier: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())
    r["wall"] = round(time.time() - t0, 2)
    try: conn.send(r)
    except Exception as e: conn.send(dict(name=c.name, obl=[], error="result: %s" % e, assumed=[], external=[], inlined=[], functions=[], invariants=[], solver_time=0, queries=0,
                                          covers=0, bounded=None, wall=0))
    conn.close()


def run_contracts(check, cs, jobs=8, limit=None):
    """each contract in its own process with its own time limit; after `limit` seconds in all, what is left counts as undecided"""
    pend, run, res = list(cs), [], {}
    start = time.time()
    while pend or run:
        over = limit is not None and time.time() - start > limit
        if over:
            for c in pend:
                res[c.name] = dict(name=c.name, obl=[], error="not started: time limit of the whole check", assumed=[], external=[], inlined=[], functions=list(c.functions), invariants=[],
                                   solver_time=0, queries=0, covers=0, bounded=c.bounded, wall=0.0)
            pend = []
        while pend and len(run) < jobs:
            c = pend.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_worker, args=(check, c, b))
            p.start(); b.close()
            run.append((c, p, a, time.time()))
        time.sleep(0.02)
        for it in list(run):
            c, p, a, t0 = it
            got = None
            if a.poll():
                try: got = a.recv()
                except EOFError: got = None
                p.join(5)
            elif not p.is_alive():
                got = None
            elif over or time.time() - t0 > c.timeout + 30:
                try: os.killpg(p.pid, signal.SIGKILL)
                except Exception: p.kill()
                p.join()
            else: continue
            if got is None:
                got = dict(name=c.name, obl=[], error="no result (time or memory limit)", assumed=[], external=[], inlined=[], functions=list(c.functions), invariants=[],
                           solver_time=0, queries=0, covers=0, bounded=c.bounded, wall=round(time.time() - t0, 1))
            res[c.name] = got
            run.remove(it)
    return [res[c.name] for c in cs]


class Native:
    """the real code, compiled natively, run against the specification as an oracle"""

    def __init__(self, harness, sources=(), flags=(), libs=(), ldflags=(), san=True):
        self.harness, self.sources, self.flags, self.libs, self.ldflags, self.san = harness, list(sources), list(flags), list(libs), list(ldflags), san


class PyNative(Native):
    """the real code as a shared library, driven from Python: go(lib, rnd, more) -> (evaluations, failure text or None)"""

    def __init__(self, go, sources, flags=(), libs=(), ldflags=()):
        Native.__init__(self, "contracts (shared specification)", sources, flags, libs, ldflags, san=False)
        self.go = go


class Check:
    def __init__(self, pid, contracts, native=None, level_note="", trusted=(), jobs=8, quick_native=True):
        self.pid, self.contracts, self.native, self.trusted, self.jobs = pid, contracts, native, list(trusted), jobs
        self.quick_native = quick_native

    # ---- native search / replay
    def build_native(self):
        n = self.native
        out = os.path.join(self.scratch, "native")
        san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,alignment,function,float-cast-overflow,float-divide-by-zero,signed-integer-overflow,shift,enum,bool,null"] if n.san else []
        objs, procs = [], []
        py = isinstance(n, PyNative)
        for i, s in enumerate(([] if py else [os.path.join(VERIF, n.harness)]) + n.sources):
            o = os.path.join(self.scratch, "n%d.o" % i)
            src = s if os.path.isabs(s) else os.path.join(REPO, s)
            c = self.build.cmd(s if not os.path.isabs(s) else src, n.flags) + ["-I" + os.path.join(VERIF, "native"), "-g", "-O1", "-ffp-contract=off", "-fno-access-control" if src.endswith((".cpp", ".cc")) else "-O1"] + (["-fPIC"] if py else []) + san + ["-c", src, "-o", o]
            procs.append((s, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            objs.append(o)
        for s, p in procs:
            o, _ = p.communicate()
            if p.returncode: raise CompileError("native build of %s:\n%s" % (s, o[-3000:]))
        link = ["clang++"] + (["-shared"] if py else []) + san + objs + ["-o", out, "-Wl,--no-demangle"] + n.ldflags + n.libs + ["-lpthread", "-lm"]
        r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode:
            # functions of other files that the code under test mentions: stand-ins that do nothing
            und = sorted(set(re.findall(r"undefined (?:reference to|symbol:?) `?([\w.$]+)'?", r.stderr)))
            if und:
                dm = subprocess.run(["c++filt"] + und, capture_output=True, text=True).stdout.split("\n")
                txt = [".section .note.GNU-stack,\"\",@progbits"]
                for u, d in zip(und, dm):
                    data = u.startswith(("_ZTV", "_ZTI", "_ZTS")) or (u.startswith("_Z") and "(" not in d)
                    txt += (["\t.bss", "\t.balign 16", "\t.weak " + u, u + ":", "\t.zero 4096"] if data else ["\t.text", "\t.balign 16", "\t.weak " + u, "\t.type %s,@function" % u, u + ":", "\txorl %eax, %eax", "\txorps %xmm0, %xmm0", "\tret"])
                st = os.path.join(self.scratch, "stubs.s")
                open(st, "w").write("\n".join(txt) + "\n")
                r = subprocess.run(link + [st], capture_output=True, text=True)
        if r.returncode: raise CompileError("native link:\n" + r.stderr[-3000:])
        return out

    def search(self, budget, log):
        """None or text describing a failing input on the real code"""
        exe = self.build_native()
        if isinstance(self.native, PyNative): return self.search_py(exe, budget)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0", UBSAN_OPTIONS="halt_on_error=1:exitcode=67:print_stacktrace=1")
        work = os.path.join(self.scratch, "work"); os.makedirs(work, exist_ok=True)
        try:
            r = subprocess.run([exe, str(self.seed), str(budget)], capture_output=True, text=True, errors="replace", timeout=budget + 60, env=env, cwd=work)
        except subprocess.TimeoutExpired as e:
            log.append("native search: time limit")
            self.native_report = dict(result="time limit")
            out = (e.stdout or b"")
            out = out.decode(errors="replace") if isinstance(out, bytes) else out
            if "CASE " in out:
                # the last case announced never finished
                last = [l for l in out.split("\n") if l.startswith("CASE ")][-1]
                return "no answer (does not terminate): " + last
            return None
        m = re.search(r"^RAN (\d+)", r.stdout, re.M)
        self.native_report = dict(evaluations=int(m.group(1)) if m else 0, exit=r.returncode)
        if r.returncode == 0: return None
        txt = (r.stdout[-6000:] + "\n" + r.stderr[-6000:]).strip()
        fl = [l for l in r.stdout.split("\n") if l.startswith("FAIL")]
        if fl or r.returncode in (66, 67) or r.returncode < 0: return txt
        raise CompileError("native harness ended with %d:\n%s" % (r.returncode, txt[-1500:]))

    def search_py(self, so, budget):
        import ctypes, random
        a, b = mp.Pipe(False)

        def child():
            try:
                lib = ctypes.CDLL(so)
                fd = os.open("/dev/null", os.O_WRONLY); os.dup2(fd, 1); os.dup2(fd, 2)
                t0 = time.time(); c = [0]

                def more():
                    return time.time() - t0 < budget
                b.send(self.native.go(lib, random.Random(self.seed), more))
            except Exception as e: b.send(("error", traceback.format_exc()))
        p = mp.Process(target=child); p.start(); b.close()
        r = None
        if a.poll(budget + 40):
            try: r = a.recv()
            except EOFError: r = None
        else: p.kill()
        p.join(5)
        if r is None:
            self.native_report = dict(result="no answer")
            return "FAIL the real code crashed or did not return (exit %s)" % p.exitcode
        if r[0] == "error": raise CompileError("native harness: " + r[1])
        self.native_report = dict(evaluations=r[0])
        return None if r[1] is None else "FAIL " + r[1]

    def run(self, tier, seed):
        t0 = time.time()
        self.tier, self.seed = tier, seed
        self.native_report = None
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % self.pid)
        code = 2
        try:
            code = self._run(t0)
        except CompileError as e:
            print("ERROR: " + str(e))
            code = 2
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)
        return code

    @property
    def known(self):
        """known findings of this property: key -> what fails"""
        if not hasattr(self, "_known"):
            self._known = {}
            for l in open(os.path.join(VERIF, "known_findings.txt")):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == self.pid: self._known[m.group(2)] = m.group(3).strip()
        return self._known

    def _run(self, t0):
        self.build = Build(self.scratch)
        keys = {(s, c.flags, c.passes) for c in self.contracts for s in c.sources}
        compile_error = None
        try: self.build.prefetch(sorted(keys))
        except CompileError as e: compile_error = e
        nat_out = {}
        th = None
        if self.native and (self.quick_native or self.tier == "thorough"):
            budget = 5 if self.tier == "quick" else 120

            def go():
                try: nat_out["r"] = self.search(budget, [])
                except Exception as e: nat_out["e"] = e
            th = threading.Thread(target=go); th.start()
        if compile_error is not None:
            if th: th.join()
            raise compile_error
        res = run_contracts(self, self.contracts, self.jobs - (1 if th else 0) if self.jobs > 2 else self.jobs, 780 if self.tier == "quick" else None)
        if th: th.join()
        bad = []
        n_obl = n_ok = 0
        for r in res:
            for o in r["obl"]:
                n_obl += 1
                if o["status"] == "proved": n_ok += 1
                else: bad.append((r["name"], o["name"], o))
            if r["error"]:
                n_obl += 1
                bad.append((r["name"], "%s: contract could not be decided" % r["name"], dict(status="undecided", reason=r["error"])))
            elif not r["obl"]:
                n_obl += 1
                bad.append((r["name"], "%s: no obligations were generated" % r["name"], dict(status="vacuous")))
        found = nat_out.get("r")
        log = []
        if bad and self.native and found is None:
            try: found = self.search(25 if self.tier == "quick" else 120, log)
            except CompileError as e: log.append(str(e))
        elif nat_out.get("e") is not None and not bad:
            # the proof decides; the cross-check on the compiled code is reported as not run
            print("note: the native cross-check could not be run: %s" % str(nat_out["e"])[-1500:])
            self.native_report = dict(result="not run", reason=str(nat_out["e"])[-1500:])
        viol = 1 if (bad or found) else 0
        for k in sorted({k for r in res for k in r.get("known", ())}): print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k]))
        for r in res:
            k = sum(1 for o in r["obl"] if o["status"] == "proved")
            print("%-44s %3d/%-3d obligations  %6.1fs%s" % (r["name"], k, len(r["obl"]), r["wall"], "  ERROR " + r["error"].split("\n")[0][:300] if r["error"] else ""))
        if os.environ.get("VERIF_DEBUG"):
            for r in res:
                if r["error"] and os.environ["VERIF_DEBUG"] != "1": print(r["error"])
                elif r["error"] and "Traceback" in r["error"]: print("\n".join(r["error"].strip().split("\n")[-5:]))
                for o in r["obl"]:
                    if o["status"] != "proved": print("   ", o["status"], o["name"], o.get("counterexample") if os.environ["VERIF_DEBUG"] != "1" else "")
        self.evidence(res, n_obl, n_ok, viol, time.time() - t0)
        if not viol:
            print("%s: %d/%d obligations discharged (%.1fs)" % (self.pid, n_ok, n_obl, time.time() - t0))
            return 0
        rd = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s.txt" % self.pid)
        with open(path, "w") as f:
            f.write("property %s\n" % self.pid)
            for c, n, o in bad:
                f.write("\nfailed obligation: %s [%s]\n" % (n, o.get("status")))
                if o.get("reason"): f.write("  reason: %s\n" % o["reason"])
                if o.get("counterexample"): f.write("  counterexample of the verifier: %s\n" % json.dumps(o["counterexample"]))
            if found: f.write("\nfailing input on the real code (harness %s, seed %d):\n%s\n" % (self.native.harness, self.seed, found))
            for l in log: f.write("note: %s\n" % l)
        for c, n, o in bad[:12]: print("  not discharged: %s [%s]%s" % (n, o.get("status"), " " + o["reason"].split("\n")[0][:200] if o.get("reason") else ""))
        if found:
            l = [x for x in found.split("\n") if x.startswith("FAIL")] or found.split("\n")[:3]
            print("  failing input: %s" % l[0][:400])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (self.pid, path))
        return 1

    def evidence(self, res, n, ok, viol, wall):
        fns, asm, ext, inl = set(), set(), set(), set()
        be = {}
        st = 0.0
        for r in res:
            fns |= set(r["functions"]); asm |= set(r["assumed"]); ext |= set(r["external"]); inl |= set(r["inlined"])
            st += r["solver_time"]
            for o in r["obl"]:
                if o["status"] == "proved": be[o["backend"]] = be.get(o["backend"], 0) + 1
        cov = dict(obligations=n, discharged=ok,
                   checker_cmd="bash /verif/check.sh %s" % self.pid,
                   trusted_base=sorted(self.trusted) + ["clang 18 (front end, -O0) and opt sroa", "/verif/engine (verification-condition generator)", "z3 5.3 / cvc5 1.1"],
                   functions_under_contract=sorted(fns), functions_verified_inline=sorted(inl - fns)[:200], backends=be, solver_seconds=round(st, 2),
                   external_calls_by_contract=sorted(ext), reachability_checks=sum(r["covers"] for r in res),
                   contracts=[dict(name=r["name"], obligations=len(r["obl"]), discharged=sum(1 for o in r["obl"] if o["status"] == "proved"), seconds=r["wall"], queries=r["queries"],
                                   bounded=r["bounded"], error=r["error"]) for r in res],
                   loop_invariants=[i for r in res for i in r["invariants"]][:100],
                   obligation_kinds={k: sum(1 for r in res for o in r["obl"] if o["kind"] == k) for k in sorted({o["kind"] for r in res for o in r["obl"]})},
                   bounded_functions=[dict(contract=r["name"], bound=r["bounded"]) for r in res if r["bounded"]],
                   native_cross_check=self.native_report or "not run")
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="proof", coverage=cov, assumptions=sorted(asm) + sorted(self.trusted), wall_s=round(wall, 2), violations=viol)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
