"""Obligations, their execution and verdicts.

An obligation (Ob) is a C++ harness body over symbolic inputs plus a claim over
inputs and outputs.  The harness and everything it reaches in /repo is executed
symbolically from clang IR; the claim's negation is given to the solver; a
counterexample is only reported after it has been replayed on the native build.
"""
import concurrent.futures as cf
import json
import math
import bisect
import os
import re
import random
import resource
import select
import signal
import struct
import subprocess
import sys
import time
import traceback
from fractions import Fraction

from . import build, terms as tm
from .terms import F32, TRUE, FALSE
from .e import E, I, And, Or, Not, Imp


NEAR = {}                        # claims on rounding error: term id -> (output, exact value, magnitude, k)


def near(out, exact, mag, k):
    """|out - exact| <= k 2^-24 mag"""
    g = tm.fcmp("ole", tm.fun("fabs", tm.fbin("fsub", out.t, exact.t)), tm.fbin("fmul", mag.t, tm.fconst(k * 2.0 ** -24)))
    NEAR[g.id] = (out.t, exact.t, mag.t, k)
    return g


TRIG = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2"}
EXPLOG = {"exp", "exp2", "log", "log2", "pow", "sinh", "cosh", "tanh", "cbrt", "acosh", "asinh", "atanh"}
# where trigonometric and arc functions change behaviour: near multiples of a quarter of a right angle, near +-1, and far away
CRITICAL = [k * math.pi / 4 * (1 + s * 2.0 ** -j) for k in (1, 2, 4, 8) for j in (2, 4, 6, 8, 11, 14, 18, 22) for s in (1, -1)]
CRITICAL += [1 - 2.0 ** -j for j in (2, 4, 6, 8, 11, 14, 18, 22)] + [10.0 ** j for j in range(2, 9)]


def flat_and(cs):
    for c in cs:
        if c.op == "and":
            yield from flat_and(c.args)
        else:
            yield c


class Ob:
    spec = None

    def __init__(self, name, code, claim, nf=0, ni=0, nr=0, nk=0, pre=None, mode="fp", config="debug",
                 expect=None, sampler=None, approx=False, slack=None, timeout=None, domain=True, tier="quick",
                 funcs=None, allow=(), note=None, ints=None, against=(), refute=True, fresh=False, err=False, bounded=(), shared=False, rnd=None, whole=None):
        self.name = name
        self.code = code
        self.claim = claim
        self.nf, self.ni, self.nr, self.nk = nf, ni, nr, nk
        self.pre = pre
        self.mode = mode
        self.config = config
        self.expect = expect          # 'assert': every execution under pre must end in a failed assertion
        self.sampler = sampler        # rng -> (list of floats, list of ints)
        self.approx = approx          # pre contains equalities no float meets exactly
        self.slack = slack
        self.timeout = timeout
        self.domain = domain
        self.tier = tier
        self.allow = allow            # error kinds tolerated under pre
        self.note = note
        self.ints = ints              # pool of interesting ints
        self.against = tuple(against)  # other build configurations that must agree bit for bit
        self.refute = refute
        self.err = err                # the claims bound rounding errors (near), for inputs without overflow or underflow
        self.shared = shared          # no write to memory that calls running at the same time may use
        self.rnd = rnd                # bound on the inputs: the claims are ranges, decided over reals with a rounding per operation
        self.whole = whole            # (k, f): inputs are multiples of 2^-f up to k; the code must be exact, and equal over the reals
        self.bounded = bounded        # inputs of absolute value at most 1
        self.fresh = fresh            # the result of a first call must be the result after any earlier call


FRESH = "the first call in a process gives what the same call gives later"


class Ins:
    def __init__(self, ob, tag=""):
        self.a = [E(tm.fvar("a%d%s" % (i, tag))) for i in range(ob.nf)]
        self.n = [I(tm.bvar("n%d%s" % (i, tag), 32)) for i in range(ob.ni)]


class Outs:
    def __init__(self, ob):
        self.r = [E(tm.fvar("o%d" % i)) for i in range(ob.nr)]
        self.k = [I(tm.bvar("k%d" % i, 64)) for i in range(ob.nk)]


def harness_source(obs):
    """one translation unit with every harness, and the table for the driver"""
    s = ['#include "zh.hpp"']
    seen = {}
    for i, ob in enumerate(obs):
        s.append('extern "C" void h_%d(const float *a, const int32_t *n, float *r, int64_t *k)\n'
                 '{ (void)a; (void)n; (void)r; (void)k; using namespace zh;\n%s\n}' % (i, ob.code))
    s.append("#ifdef ZH_MAIN\n#include \"zmain.hpp\"\nstatic const zh_entry tab[] = {")
    for i, ob in enumerate(obs):
        s.append("{h_%d,%d,%d,%d,%d}," % (i, ob.nf, ob.ni, ob.nr, ob.nk))
    s.append("};\nint main() { return zh_main(tab, %d); }\n#endif" % len(obs))
    return "\n".join(s)


# ------------------------------------------------------------------ native side
def _nolimit():
    resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))


class Native:
    def __init__(self, exe):
        self.exe = exe
        self.p = None

    def call(self, ix, ob, calls):
        """calls: list of (float bits list, ints list) -> ('ok', rbits, kvals) | ('crash', why)"""
        words = []
        for f, n in calls:
            words += ["%x" % (x & 0xffffffff) for x in f] + ["%x" % (x & 0xffffffff) for x in n]
        line = "%d %d %s\n" % (ix, len(calls), " ".join(words))
        if self.p is None:
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77", UBSAN_OPTIONS="halt_on_error=1",
                       TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_bugs=1")
            self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      stderr=subprocess.DEVNULL, text=True, env=env,
                                      preexec_fn=_nolimit)
        try:
            self.p.stdin.write(line)
            self.p.stdin.flush()
            out = self.p.stdout.readline()
        except BrokenPipeError:
            out = ""
        if not out:
            self.p = None
            return ("dead", "driver died")
        w = out.split()
        if w[0] != "OK":
            return ("crash", " ".join(w[1:]))
        r = [int(x, 16) for x in w[1:1 + ob.nr]]
        k = [int(x, 16) for x in w[1 + ob.nr:]]
        return ("ok", r, k)

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None


# ------------------------------------------------------------------ samples
SPECIAL = [0x00000000, 0x80000000, 0x3f800000, 0xbf800000, 0x3f000000, 0xbfc00000, 0x40200000, 0xc0600000,
           0x00000001, 0x80000001, 0x00800000, 0x7f7fffff, 0xff7fffff, 0x7f800000, 0xff800000, 0x7fc00000,
           0x4b000001, 0xcb7fffff, 0x34000000, 0x3effffff, 0x4f000000, 0x40490fdb]
SPECINT = [0, 1, -1, 2, 3, 4, 5, 7, 31, 32, -2, 0x7fffffff, -0x80000000, 255, 256, 65536]


def fbits(x):
    try:
        return struct.unpack("<I", struct.pack("<f", x))[0]
    except OverflowError:
        return 0x7f800000 if x > 0 else 0xff800000


def bitsf(b):
    return struct.unpack("<f", struct.pack("<I", b & 0xffffffff))[0]


class Sampler:
    def __init__(self, ob, seed):
        self.ob = ob
        self.r = random.Random("%s/%s" % (seed, ob.name))

    def point(self, j):
        ob, r = self.ob, self.r
        if ob.sampler is not None:
            f, n = ob.sampler(r)
            return [fbits(x) for x in f], [int(x) for x in n]
        if ob.mode == "fp":
            k = j % 4
            f = []
            for _ in range(ob.nf):
                c = r.random()
                if k == 0 or c < 0.3:
                    f.append(r.choice(SPECIAL))
                elif k == 1 or c < 0.7:
                    f.append(fbits(r.randint(-64, 64) / 8.0))
                else:
                    f.append(r.getrandbits(32))
            if ob.nf > 1 and r.random() < 0.3:
                f[r.randrange(ob.nf)] = f[r.randrange(ob.nf)]
        else:
            k = j % 3
            f = [fbits(r.randint(-3, 3)) if k == 0 else (fbits(r.randint(-32, 32) / 8.0) if k == 1 else fbits(r.uniform(-5, 5)))
                 for _ in range(ob.nf)]
        pool = ob.ints or SPECINT
        n = [r.choice(pool) if r.random() < 0.6 else (r.randint(-20, 20) if r.random() < .5 else
             r.getrandbits(32) - (1 << 31)) for _ in range(ob.ni)]
        if ob.ints:
            n = [r.choice(pool) for _ in range(ob.ni)]
        return f, n


# ------------------------------------------------------------------ one obligation
class Run:
    def __init__(self, ob, ix, module, native, seed, timeout_ms, flavour_exe=None, others=(), give_up=1e9):
        self.give_up = give_up        # seconds after which no further goal is attempted
        self.ob, self.ix, self.m, self.native = ob, ix, module, native
        self.rnd_lemmas = {}
        self.others = others          # (config, module, native) of ob.against
        self.seed = seed
        self.timeout = ob.timeout * 1000 if ob.timeout else timeout_ms
        self.flavour_exe = flavour_exe
        self.res = dict(name=ob.name, goals=[], funcs=[], paths=0, steps=0, validated=0, violations=[], notes=[])

    # symbolic execution -------------------------------------------------
    def execute(self):
        from .symex import Engine, State, Ptr
        ob = self.ob
        eng = Engine(self.m, feasible=self.feasible)
        self.eng = eng
        st = State()
        nc = 1
        states = self._exec(eng, st, [self.inp])
        if not ob.shared and (eng.errors or states):
            mutable = [s for s, _ in states if s.gw]
            if mutable:
                names = set()
                for s in mutable:
                    for i in s.gw:
                        o = eng.base.get(i)
                        if o is not None and o.kind in ("global", "tls"):
                            names.add(o.name)
                self.res["notes"].append("writes mutable globals: " + ", ".join(sorted(names)))
                self.stateful = True
        return states

    def history(self):
        """history independence: an arbitrary earlier call first"""
        from .symex import Engine, State
        lab, v = self.history_search()
        if v is not None:
            self.res["violations"].append(v)
            return self.done(lab, "violated", "replayed pair of calls")
        eng2 = Engine(self.m, feasible=self.feasible)
        self.inp0 = Ins(self.ob, "p")
        pre0 = self.preT(self.inp0)
        st = State()
        if pre0 is not None:
            st.assume(pre0)
        self.second = self._exec(eng2, st, [self.inp0, self.inp])
        self.errors2 = eng2.errors

    def history_search(self):
        """pairs of related calls whose second result differs from the same call made first and breaks a claim"""
        ob = self.ob
        sm = Sampler(ob, "history/%s" % self.seed)
        r = random.Random(self.seed)
        tend = time.time() + 20
        pool = []
        for j in range(200):
            q = sm.point(j)
            if self.pre_holds(self.env_of_point(*q)):
                pool.append(q)
            if len(pool) >= 40 or time.time() > tend - 10:
                break
        if not pool:
            return None, None
        for j in range(3000):
            if time.time() > tend:
                break
            q, p0 = r.choice(pool), r.choice(pool)
            f, g = list(q[0]), list(p0[0])
            nf = len(f)
            if j % 2 and nf > 1:
                # one harness call that makes several library calls: arguments related to each other
                h, h2 = f[:nf // 2], f[nf // 2:]
                w = r.randint(1, min(nf // 2, 4)) if r.random() < .8 else nf // 2
                i = r.randint(0, nf // 2 - w)
                k = r.choice((1.0, -1.0, 2.0, 0.5, 1.0 + 1e-6))
                part = [fbits(bitsf(b) * k) for b in h[i:i + w]]
                one = h + (h2[:i] + part + h2[i + w:] if r.random() < .5 else h[:i] + part + h[i + w:]) + f[2 * (nf // 2):]
                ns = list(q[1])
                if ns and r.random() < .7:
                    m = len(ns) // 2
                    ns = ns[:m] + ns[:m] + ns[2 * m:]
                env = self.env_of_point(one, ns)
                x = self.native.call(self.ix, ob, [(one, ns)])
                if x[0] == "ok" and self.pre_holds(env):
                    for lab, c in self.claims:
                        why = self.claim_false(env, x, c, [(one, ns)])
                        if why:
                            return lab, self.violation(lab, [(one, ns)], x, why)
                continue
            if nf:
                # the earlier call: the same arguments but for one part, or one part in common
                w = r.randint(1, min(nf, 4)) if r.random() < .8 else r.randint(1, nf)
                i = r.randint(0, nf - w)
                part = [bitsf(b) for b in f[i:i + w]]
                op = r.choice(("same", "neg", "scale", "near", "perm", "keep"))
                if op == "neg":
                    part = [-x for x in part]
                elif op == "scale":
                    k = r.choice((2.0, 0.5, 4.0, 1024.0))
                    part = [x * k for x in part]
                elif op == "near":
                    part = [x + r.choice((0.0, 1e-6, 1e-3, -1e-6)) for x in part]
                elif op == "perm":
                    part = part[1:] + part[:1]
                src = f if r.random() < .5 else g
                if op == "keep":
                    h = f[:i] + g[i:i + w] + f[i + w:]
                else:
                    h = src[:i] + [fbits(x) for x in part] + src[i + w:]
            else:
                h = []
            ns = [r.choice((x, y, x, tm.sx((x + r.choice((1, -1))) & 0xffffffff, 32))) for x, y in zip(q[1], p0[1])]
            calls = [(h, ns), q]
            if r.random() < .3:
                calls = calls[::-1]
            one = self.native.call(self.ix, ob, calls[1:])
            two = self.native.call(self.ix, ob, calls)
            if one[0] == two[0] and (one[0] != "ok" or self.same_out(one, two)):
                continue
            env = self.env_of_point(*calls[1])
            if not self.pre_holds(env) or not self.pre_holds(self.env_of_point(*calls[0])):
                continue
            if ob.fresh:
                return FRESH, self.violation(FRESH, calls, two, "made first the same call gives %r" % (one,))
            for lab, c in self.claims:
                why = self.claim_false(env, two, c, calls)
                if why:
                    lab += " (after an arbitrary earlier call)"
                    return lab, self.violation(lab, calls, two, why)
        return None, None

    def relate_history(self, asm0):
        """the first call in a process and the same call after an arbitrary earlier one"""
        pre0 = [self.preT(self.inp0)] if self.ob.pre is not None else []
        for s1, o1 in self.states:
            for s2, o2 in self.second:
                asm = asm0 + pre0 + list(s1.pc) + list(s2.pc)
                if any(a is FALSE for a in asm):
                    continue
                for nm in o1:
                    x, y = o1[nm], o2[nm]
                    g = tm.fident(x, y) if x.sort in (F32, tm.F64) else tm.icmp("eq", x, y)
                    lab = "%s: output %s" % (FRESH, nm)
                    if g is TRUE:
                        self.goal(lab, asm, g)
                        continue
                    if self.res["violations"] or time.time() > self.t0 + self.give_up:
                        self.done(lab, "undecided", "not attempted")
                        continue
                    st_, how, cand = self.fp_decide(asm, g)
                    if st_ == "unsat":
                        self.done(lab, "proved", how)
                        continue
                    hit = None
                    for calls in [self.point_of_env(e, 2) for e in cand]:
                        one, two = self.native.call(self.ix, self.ob, calls[1:]), self.native.call(self.ix, self.ob, calls)
                        if one[0] != two[0] or one[0] == "ok" and not self.same_out(one, two):
                            hit = self.violation(lab, calls, two, "made first the same call gives %r" % (one,))
                            self.res["violations"].append(hit)
                            break
                    self.done(lab, "violated" if hit else "undecided", "%s: %s" % (st_, how))

    def _exec(self, eng, st, inputs):
        from .symex import Ptr
        ob = self.ob
        eng.watch = ob.shared
        cur = [st]
        for inp in inputs:
            nxt = []
            for st in cur:
                def block(n, sz, name):
                    return eng.new_obj(st, max(n * sz, 1), "heap", name)
                A, N = block(ob.nf, 4, "inputs a"), block(ob.ni, 4, "inputs n")
                R, K = block(ob.nr, 4, "outputs r"), block(ob.nk, 8, "outputs k")
                for i in range(ob.nf):
                    st.mem[A].cells[4 * i] = (4, inp.a[i].t)
                for i in range(ob.ni):
                    st.mem[N].cells[4 * i] = (4, inp.n[i].t)
                for s, _ in eng.call(st, "h_%d" % self.ix, [Ptr(A, 0), Ptr(N, 0), Ptr(R, 0), Ptr(K, 0)]):
                    nxt.append((s, R, K))
            cur = [s for s, _, _ in nxt]
            last = nxt
        out = []
        fty, ity = _FT, _IT
        for s, R, K in last:
            o = {}
            for i in range(ob.nr):
                o["o%d" % i] = eng.load_at(s, eng.get(s, R), 4 * i, fty)
            for i in range(ob.nk):
                o["k%d" % i] = eng.load_at(s, eng.get(s, K), 8 * i, ity)
            out.append((s, o))
        return out

    def feasible(self, pc):
        """three-valued; used only to cut infeasible loop iterations"""
        import z3
        from . import smt
        from .symex import Budget
        t0 = time.time()
        try:
            fp = smt.FPInterp()
            cs = [fp(c) for c in pc]
            r, _ = smt.check(z3.Solver, cs, 2000)
            return {"sat": True, "unsat": False}.get(r)
        except Exception:
            return None
        finally:
            self.ftime += time.time() - t0
            if self.ftime > 45:
                raise Budget("loop without a bound the solver can establish")

    def preT(self, inp):
        if self.ob.pre is None:
            return None
        p = self.ob.pre(inp)
        return And(*p) if isinstance(p, (list, tuple)) else p

    # goals ---------------------------------------------------------------
    def run(self):
        from . import smt
        t0 = self.t0 = time.time()
        ob = self.ob
        self.inp = Ins(ob)
        self.outs = Outs(ob)
        self.second = None
        self.stateful = False
        self.ftime = 0.0
        self.errors2 = []
        self.pre = self.preT(self.inp)
        self.claims = [] if ob.expect == "assert" else list(ob.claim(self.inp, self.outs))
        try:
            states = self.execute()
        except Exception:
            self.native_only()
            raise
        eng = self.eng
        self.states = states
        self.res["funcs"] = sorted(eng.called)
        self.res["paths"] = len(states) + len(eng.errors)
        self.res["steps"] = eng.steps
        # 1. translator validation and non-vacuity witness on concrete points
        self.validate()
        if self.stateful:
            self.history()
        # 2. error paths
        asm0 = [self.pre] if self.pre is not None else []
        for er in eng.errors + self.errors2:
            if ob.expect == "assert" and er.kind == "assert":
                continue
            if er.kind in ob.allow:
                continue
            lab = "no %s error (%s)" % (er.kind, er.msg)
            self.goal(lab, asm0 + list(er.pc), FALSE, err=er)
        if ob.expect == "assert":
            for s, o in states:
                self.goal("ends in a failed assertion", asm0 + list(s.pc), FALSE, completes=True)
            if not states:
                self.res["goals"].append(dict(label="ends in a failed assertion on every path", status="proved", how="symbolic execution"))
        # 3. claims
        groups = [(s, o, 1) for s, o in states] + [(s, o, 2) for s, o in (self.second or [])]
        for s, o, ncall in groups:
            m = self.omap(o)
            labels = [l for l, _ in self.claims]
            ts = tm.subst([c for _, c in self.claims], m)
            bare = []
            for lab, g, (_, c) in zip(labels, ts, self.claims):
                q0, n0 = smt.STATS.queries, len(self.res["goals"])
                self.goal(lab + (" (after an arbitrary earlier call)" if ncall == 2 else ""), asm0 + list(s.pc), g,
                          state=(s, o), ncall=ncall, label=lab)
                if smt.STATS.queries == q0:
                    bare += [(x, c, g) for x in self.res["goals"][n0:] if x["status"] == "proved"]
            self.confirm(asm0 + list(s.pc), m, bare)
            if ob.mode == "real" and ob.domain and ncall == 1:
                self.domain_goals(asm0 + list(s.pc), s, o)
            if ncall == 1:
                self.undef_goal(asm0 + list(s.pc), s, o)
        if ob.fresh and self.second:
            self.relate_history(asm0)
        # 4. the same harness in other build configurations
        for cfg, mod, nat in self.others:
            self.relate(asm0, states, cfg, mod, nat)
        # a point where the native result strays although exact arithmetic shows the claim on every path strays by rounding
        for v in list(self.res["violations"]):
            if v.pop("tentative", False) and not self.res.get("mismatches"):
                gs = [g for g in self.res["goals"] if g["label"] == v["label"]]
                if gs and all(g["status"] == "proved" for g in gs) and not self.res.get("error"):
                    self.res["violations"].remove(v)
                    self.res["notes"].append("%s: proved, but rounding reaches further than estimated at %s" % (v["label"], v["inputs"][-1]["a"]))
        self.res["time"] = time.time() - t0
        return self.res

    def undef_goal(self, asm, s, o):
        """the result is a function of the inputs, not of uninitialised memory"""
        roots = list(o.values()) + list(s.pc)
        und = [t for t in tm.postorder(roots) if t.op in ("fvar", "bvar", "pvar") and str(t.attr).startswith("undef!")]
        if not und:
            return
        lab = "result does not depend on uninitialised memory"
        ren = {t.id: tm.raw(t.op, (), t.sort, str(t.attr) + "'") for t in und}
        vals = list(o.values())
        other = tm.subst(vals + list(s.pc), ren)
        same = And(*[tm.fident(x, y) if x.sort in (F32, tm.F64) else tm.icmp("eq", x, y) if isinstance(x.sort, tuple) else tm.beq(x, y)
                     for x, y in zip(vals, other)])
        st, how, cand = self.fp_decide(asm + other[len(vals):], same)
        if st == "unsat":
            return self.done(lab, "proved", how)
        a = Native(self.flavour_exe("pattern"))
        b = Native(self.flavour_exe("zero"))
        try:
            for calls in [self.point_of_env(e, 1) for e in cand] + [[p] for p in self.good_points]:
                if not self.pre_holds(self.env_of_point(*calls[-1])):
                    continue
                x, y = a.call(self.ix, self.ob, calls), b.call(self.ix, self.ob, calls)
                if x[0] == y[0] == "ok" and not self.same_out(x, y) or x[0] != y[0]:
                    self.res["violations"].append(self.violation(lab, calls, x, "builds that fill uninitialised memory differently disagree: %r / %r" % (x[1:], y[1:])))
                    return self.done(lab, "violated", how)
        finally:
            a.close()
            b.close()
        self.done(lab, "undecided", "%s: %s" % (st, how))

    def relate(self, asm0, states, cfg, mod, nat):
        from .symex import Engine, State
        eng2 = Engine(mod, feasible=self.feasible)
        st = State()
        states2 = self._exec(eng2, st, [self.inp])
        self.res["steps"] += eng2.steps
        self.res["paths"] += len(states2) + len(eng2.errors)
        native, self.native = self.native, nat
        try:
            for er in eng2.errors:
                if er.kind not in self.ob.allow:
                    self.goal("%s: no %s error (%s)" % (cfg, er.kind, er.msg), asm0 + list(er.pc), FALSE, err=er)
        finally:
            self.native = native
        for s1, o1 in states:
            for s2, o2 in states2:
                asm = asm0 + list(s1.pc) + list(s2.pc)
                if any(a is FALSE for a in asm):
                    continue
                for nm in o1:
                    x, y = o1[nm], o2[nm]
                    g = tm.fident(x, y) if x.sort in (F32, tm.F64) else tm.icmp("eq", x, y)
                    lab = "%s: output %s is identical to the %s build" % (cfg, nm, self.ob.config)
                    if g is TRUE:
                        self.goal(lab, asm, g)
                        continue
                    st_, how, cand = self.fp_decide(asm, g)
                    if st_ == "unsat":
                        self.done(lab, "proved", how)
                        continue
                    v = self.refute_relation(lab, cand, nat)
                    if v is not None:
                        self.res["violations"].append(v)
                        self.done(lab, "violated", how)
                    else:
                        self.done(lab, "undecided", "%s: %s" % (st_, how))

    def refute_relation(self, lab, cand, nat2):
        sm = Sampler(self.ob, "relate/%s" % self.seed)
        pts = [self.point_of_env(e, 1) for e in cand] + [[p] for p in self.good_points] + [[sm.point(j)] for j in range(100)]
        for calls in pts:
            if not self.pre_holds(self.env_of_point(*calls[-1])):
                continue
            x, y = self.native.call(self.ix, self.ob, calls), nat2.call(self.ix, self.ob, calls)
            if x[0] != y[0] or x[0] == "ok" and not self.same_out(x, y):
                return self.violation(lab, calls, x, "the builds disagree: %r / %r" % (x, y))
        return None

    def omap(self, o):
        m = {}
        for r in self.outs.r:
            m[r.t.id] = o[r.t.attr]
        for k in self.outs.k:
            m[k.t.id] = o[k.t.attr]
        return m

    def done(self, lab, status, how, **kw):
        self.res["goals"].append(dict(label=lab, status=status, how=how, **kw))

    def goal(self, lab, asm, g, err=None, state=None, completes=False, ncall=1, label=None):
        from . import smt
        if any(a is FALSE for a in asm):
            return
        if g is TRUE:
            smt.STATS.trivial += 1
            return self.done(lab, "proved", "term identity")
        t0 = time.time()
        if t0 > self.t0 + self.give_up or (self.res["violations"] and t0 > self.t0 + 60):
            return self.done(lab, "undecided", "not attempted: time")
        if self.ob.err and label is not None:
            st, how, cand = self.err_decide(asm, dict(self.claims)[label], state)
        elif self.ob.rnd:
            st, how, cand = self.rnd_decide(asm, g)
        elif self.ob.whole:
            st, how, cand = self.whole_decide(asm, g)
        elif self.ob.mode == "fp":
            st, how, cand = self.fp_decide(asm, g)
        else:
            st, how, cand = self.real_decide(asm, g)
        dt = round(time.time() - t0, 2)
        if st == "unsat":
            return self.done(lab, "proved", how, t=dt)
        # candidates for a counterexample
        v = self.refute(lab, asm, g, cand, err, state, completes, ncall, label)
        if v is not None:
            self.res["violations"].append(v)
            return self.done(lab, "violated", how, t=dt)
        self.done(lab, "undecided", "%s: %s" % (st, how), t=dt)

    def confirm(self, asm, m, bare):
        """claims the term rewriter or the polynomial normal form already settled are put to z3 as well: outputs as
        unknowns equated to the code's terms, operations uninterpreted (fp) or polynomial (real)"""
        import z3
        from . import smt
        if not bare:
            return
        try:
            if self.ob.mode == "fp":
                fa = smt.FPInterp(abstract=True)
                ids = set(m)
                outs = [o.t for o in self.outs.r + self.outs.k if o.t.id in ids]
                if len(list(tm.postorder([m[o.id] for o in outs] + [c for _, c, _ in bare]))) > 6000:
                    return
                cons = [fa(c) for c in asm]
                for o in outs:
                    cons.append(fa(o) == fa(m[o.id]))
                cons.append(z3.Not(z3.And(*[fa(c) for _, c, _ in bare])))
                how = "z3 EUF+FP"
            else:
                if len(list(tm.postorder([g for _, _, g in bare]))) > 3000:
                    return
                pi = smt.PolyInterp()
                goal = z3.And(*[pi(g) for _, _, g in bare])
                cons = [z3.simplify(z3.Not(goal), som=True)]
                how = "z3 polynomial arithmetic"
        except Exception:
            return
        r, _ = smt.check(z3.Solver, cons, 2000)
        if r == "unsat":
            for g, _, _ in bare:
                g["how"] = "%s; %s" % (g["how"], how)

    # bit-precise ----------------------------------------------------------
    def fp_decide(self, asm, g):
        import z3
        from . import smt
        try:
            fp = smt.FPInterp()
            cons = [fp(c) for c in asm] + [z3.Not(fp(g))]
        except Exception as ex:
            return "unknown", "not encodable: %s" % ex, []
        s = z3.simplify(z3.And(*cons))
        if z3.is_false(s):
            smt.STATS.trivial += 1
            return "unsat", "simplification", []
        if smt.has_rounding(list(asm) + [g]):
            # every interpretation of the rounding operations at once
            fa = smt.FPInterp(abstract=True)
            r, _ = smt.check(z3.Solver, [fa(c) for c in asm] + [z3.Not(fa(g))], min(3000, self.timeout))
            if r == "unsat":
                return "unsat", "z3 EUF+FP", []
            if any(t.op == "isnan" for t in tm.postorder([g])):
                fa = smt.FPInterp(abstract=True)
                fa.axioms = []
                cs = [fa(c) for c in asm] + [z3.Not(fa(g))]
                r, _ = smt.check(z3.Solver, cs + fa.axioms, min(3000, self.timeout))
                if r == "unsat":
                    return "unsat", "z3 EUF+FP with the NaN and sign rules", []
        cand = []
        for f in (lambda: z3.Solver(), lambda: z3.SolverFor("QF_FP")):
            if f is not None and self.timeout <= 0:
                break
            r, m = smt.check(f, cons, self.timeout // (1 if fp.uf_used else 2))
            if r == "unsat":
                return "unsat", "z3 QF_FPBV", []
            if r == "sat":
                env = {}
                for name, v in fp.vars.items():
                    mv = m.eval(v, model_completion=True)
                    env[name] = z3.is_true(mv) if z3.is_bool(mv) else mv.as_long()
                more = self.fp_candidates(fp, cons, list(asm) + [g], env) if fp.uf_used else []
                return "sat", "z3 QF_FPBV", more + [env]
            if fp.uf_used:
                break
        return "unknown", "solver timeout", []

    def fp_candidates(self, fp, cons, roots, env, secs=8):
        """more models of cons: with the library's value of a function nothing is known of, where the last model had
        another one, and with an argument as small or as large as it can be"""
        import z3
        from . import smt, evalc
        ufs = [t for t in tm.postorder(roots) if t.op in evalc.LIBM and t.op not in ("sqrt", "fabs", "copysign", "fmin", "fmax")
               and t.op not in smt._RM and t.sort in (F32, tm.F64)]
        names = [n for n in fp.vars if not z3.is_bool(fp.vars[n])]
        if not ufs or len(self.res["violations"]) > 2:
            return []
        tend = time.time() + secs
        s = z3.Solver()
        s.add(*cons)
        out = []

        def ask(*extra):
            s.set("timeout", max(1, min(2000, int(1000 * (tend - time.time())))))
            t0 = time.time()
            r = s.check(*extra)
            smt.STATS.queries += 1
            smt.STATS.time += time.time() - t0
            if r != z3.sat:
                return None
            m = s.model()
            e = {}
            for name, v in fp.vars.items():
                mv = m.eval(v, model_completion=True)
                e[name] = z3.is_true(mv) if z3.is_bool(mv) else mv.as_long()
            return e

        def learn(e):
            new = False
            for u in ufs:
                try:
                    vs = evalc.eval_ieee(list(u.args) + [u], e)
                except evalc.NoEval:
                    continue
                c = [fp.conv(tm.fc(evalc.np_to_bits(v), x.sort), []) for v, x in zip(vs, list(u.args) + [u])]
                s.add(z3.Implies(z3.And(*[fp(x) == y for x, y in zip(u.args, c)]), fp(u) == c[-1]))
                new = True
            return new
        n = 0
        while env is not None and n < 16 and time.time() < tend and learn(env):
            n += 1
            env = ask()
            if env is not None:
                out.append(env)
        if env is None:
            return out
        for name in names[:4]:
            v = fp.vars[name]
            w = v.size()
            key = lambda x: x if not str(name).startswith("a") else z3.If(x < 0, z3.BitVecVal(1 << (w - 1), w) - x - 1, x)
            kv = lambda b: tm.sx(b, w) if not (str(name).startswith("a") and b >> (w - 1)) else -(b & ((1 << (w - 1)) - 1)) - 1
            for sign in (-1, 1):
                lo, hi, best = -(1 << (w - 1)), (1 << (w - 1)) - 1, env
                for _ in range(w + 1):
                    k = kv(best[name])
                    lo, hi = (k, hi) if sign > 0 else (lo, k)
                    if lo >= hi or time.time() > tend:
                        break
                    mid = (lo + hi + 1) // 2 if sign > 0 else (lo + hi) // 2
                    e = ask(key(v) >= z3.BitVecVal(mid, w) if sign > 0 else key(v) <= z3.BitVecVal(mid, w))
                    if e is None:
                        lo, hi = (lo, mid - 1) if sign > 0 else (mid + 1, hi)
                        if lo >= hi:
                            break
                        continue
                    best = e
                    learn(e)
                    out.insert(0, e)
        return out

    # exact arithmetic -------------------------------------------------------
    def real_decide(self, asm, g):
        from . import real
        try:
            pr = real.RealProof(self.timeout)
            st, info = pr.prove(asm, g)
        except real.NoReal as ex:
            return "unknown", "no exact reading: %s" % ex, []
        if st == "unsat":
            return st, "exact arithmetic, %d case(s), %d by normal form" % (pr.ncases, pr.nf), []
        if st == "sat":
            return st, "z3 NRA", self.real_candidates(info)
        return st, str(info), []

    # ranges ----------------------------------------------------------------------
    def rnd_decide(self, asm, g):
        import z3
        from . import smt, rnd
        asm0, g0 = asm, g
        asm = rnd.canon(asm)
        g = rnd.canon([g])[0]
        if g is TRUE:
            return "unsat", "term identity", []
        key = frozenset(c.id for c in asm)

        try:
            for hard in (False, True):
                def lemma(t, k, c):
                    w = (t.id, k, key, hard)
                    if w not in self.rnd_lemmas:
                        sq = cons + rd.cons + rd.pairs()
                        r = smt.check(z3.Solver, sq + [c], min(self.timeout, 3000))[0]
                        if r != "unsat" and hard:
                            r = smt.race(sq + rd.nonlinear + [c], min(self.timeout, 4000))[0]
                        self.rnd_lemmas[w] = r.startswith("unsat")
                    return self.rnd_lemmas[w]
                rd = rnd.Rounded(self.ob.rnd, lemma)
                cons = [rd(c) for c in asm]
                for t in tm.leaves(list(asm) + [g]):
                    if t.op == "fvar":
                        cons += [rd(t)[0] >= -rnd.q(self.ob.rnd), rd(t)[0] <= rnd.q(self.ob.rnd)]
                cons += [z3.Not(rd(g, True))] + rd.pairs()
                r, m = smt.check(z3.Solver, cons + rd.cons, min(self.timeout, 10000))
                if r == "unsat":
                    return "unsat", "linear real arithmetic with roundings", []
        except rnd.NoRnd as ex:
            return "unknown", "not encodable: %s" % ex, []
        r, m = smt.race(cons + rd.cons + rd.nonlinear, self.timeout)
        if r.startswith("unsat"):
            return "unsat", "real arithmetic with roundings" + r[5:], []
        cand = []
        if r == "sat":
            e = {}
            for t in tm.leaves(list(asm) + [g]):
                if t.op == "fvar":
                    v = m.eval(rd(t)[0], model_completion=True)
                    try:
                        v = v.approx(20) if z3.is_algebraic_value(v) else v
                        e[t.attr] = fbits(float(Fraction(v.numerator_as_long(), v.denominator_as_long())))
                    except Exception:
                        pass
            cand.append(e)
        st, how, more = self.fp_decide(asm0, g0) if self.ob.mode == "fp" and not os.environ.get("NOFP") else (r, "", [])
        return ("unsat" if st == "unsat" else "unknown"), "real arithmetic with roundings: %s; %s" % (r, how), cand + more

    def whole_decide(self, asm, g):
        from . import real, whole
        try:
            asm = [c for c in flat_and(asm) if not any(t.op == "trunc" for t in tm.postorder([c]))]
            whole.analyse(list(asm) + [g], *self.ob.whole)
            st, info = real.RealProof(self.timeout).prove(asm, g)
            if st == "sat":
                return "unknown", "differs in exact arithmetic", self.real_candidates(info)
            return st, "no rounding possible; exact arithmetic" + (": %s" % info if info else ""), []
        except (real.NoReal, whole.NoWhole) as ex:
            return "unknown", "exactness: %s" % ex, []

    # rounding errors -----------------------------------------------------------
    def err_decide(self, asm, claim, state):
        from . import real, err
        out, exact, mag, k = NEAR[claim.id]
        T = tm.subst([out], self.omap(state[1]))[0]
        try:
            pr = real.RealProof(self.timeout)
            st, info = pr.prove(asm, tm.fcmp("oeq", T, exact))
            if st != "unsat":
                return ("sat", "differs in exact arithmetic", self.real_candidates(info)) if st == "sat" else (st, str(info), [])
            n = 0
            for _, h in real.cases(asm, tm.raw("outs", (T,), tm.BOOL)):
                an = err.Analysis()
                st = an.decide(h.args[0], mag, k, self.ob.bounded, self.timeout)
                n += 1
                if st != "unsat":
                    cand = []
                    for pt in an.worst(h.args[0], mag, k, None, {}, 3000):
                        env = {"a%d" % i: pt.get("a%d" % i, 1.0) for i in range(self.ob.nf)}
                        r = random.Random(1)
                        for j in range(60):
                            cand.append({x: fbits(v * (1 + r.uniform(-1, 1) * 2.0 ** -r.randint(4, 22))) if v else fbits(r.uniform(-1, 1) * 2.0 ** -10) for x, v in env.items()})
                    return st, "rounding error in linear arithmetic", cand
            return "unsat", "rounding error in linear arithmetic, %d case(s)" % n, []
        except (real.NoReal, err.NoErr) as ex:
            return "unknown", "no error analysis: %s" % ex, []

    def real_candidates(self, info, secs=15):
        """input assignments near the solver's model, then pinned to dyadics"""
        import z3
        from . import smt
        ctx, cv, cons, model = info
        ins = [(i, k[1]) for i, k in enumerate(ctx.kind) if k[0] == "in"]

        def val(m, i):
            v = m.eval(ctx.z3v[i], model_completion=True)
            try:
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                return Fraction(v.numerator_as_long(), v.denominator_as_long())
            except Exception:
                return Fraction(0)
        out = []
        m = model

        def env_of(m):
            e = {}
            for i, name in ins:
                e[name] = float(val(m, i))
            for i, k in enumerate(ctx.kind):
                if k[0] == "i2f" and k[1].args[0].op == "bvar":
                    e[k[1].args[0].attr] = int(val(m, i))
            if hasattr(cv, "_fp"):
                for name, v in cv._fp.vars.items():
                    mv = m.eval(v, model_completion=True)
                    e[name] = z3.is_true(mv) if z3.is_bool(mv) else mv.as_long()
            return e
        # moderate magnitudes are preferred
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(*cons)
        pins = []
        for bound in (4, 64, 4096):
            s.push()
            for i, _ in ins:
                s.add(ctx.z3v[i] <= bound, ctx.z3v[i] >= -bound)
            t0 = time.time()
            r = s.check()
            smt.STATS.queries += 1
            smt.STATS.time += time.time() - t0
            if r == z3.sat:
                m = s.model()
                out.append(env_of(m))
                break
            s.pop()
        tend = time.time() + secs
        s.set("timeout", 1500)
        for i, name in ins:
            if time.time() > tend:
                break
            x = val(m, i)
            for q in (1, 2, 8, 64, 4096):
                px = Fraction(round(x * q), q)
                s.push()
                s.add(ctx.z3v[i] == z3.Q(px.numerator, px.denominator))
                t0 = time.time()
                r = s.check()
                smt.STATS.queries += 1
                smt.STATS.time += time.time() - t0
                if r == z3.sat:
                    m = s.model()
                    break
                s.pop()
        out.insert(0, env_of(m))
        out.append(env_of(model))
        return out

    def domain_goals(self, asm, s, o):
        from . import real
        # lower first: the case split leaves only the branches actually taken
        roots = [v for v in o.values() if v.sort in (F32, tm.F64)]
        if not roots:
            return
        seen = {}
        holder = tm.raw("outs", tuple(roots), tm.BOOL)
        try:
            for a2, h in real.cases(asm, holder):
                if h.op != "outs":
                    continue
                for kind, cond, term in real.domain_terms(list(h.args)):
                    if cond is TRUE:
                        continue
                    k = (kind, cond.id, tuple(sorted(x.id for x in a2)))
                    if k in seen:
                        continue
                    seen[k] = 1
                    self.goal("in exact arithmetic no %s" % kind, a2, cond, state=(s, o), label="domain:" + kind)
        except real.NoReal as ex:
            self.done("domain", "undecided", str(ex))

    # validation -------------------------------------------------------------
    def env_of_point(self, f, n, tag=""):
        env = {}
        for i, b in enumerate(f):
            env["a%d%s" % (i, tag)] = b & 0xffffffff
        for i, v in enumerate(n):
            env["n%d%s" % (i, tag)] = v & 0xffffffff
        return env

    def pre_holds(self, env):
        if self.pre is None:
            return True
        from . import evalc
        if self.ob.mode == "real":
            ivenv = self.ivenv(env)
            if ivenv is None:
                return False
            r = evalc.eval_iv([self.pre], ivenv, False, slack=2e-6 if self.ob.approx and self.ob.slack is not None else None)[0]
            if self.ob.approx:
                return r is not False
            return r is True
        try:
            return bool(evalc.eval_ieee([self.pre], env)[0])
        except evalc.NoEval:
            return False

    def ivenv(self, env):
        from . import evalc
        out = {}
        for k, b in env.items():
            if k[0] == "a":
                v = bitsf(b)
                if not math.isfinite(v):
                    return None
                # preconditions no float meets exactly: every point of a small box around the input, one of which does
                r = abs(v) * 1e-6 if self.ob.approx and self.ob.slack is None else 0.0
                out[k] = evalc.Iv(evalc.mpf(v) - r, evalc.mpf(v) + r)
            else:
                out[k] = b
        return out

    def validate(self):
        from . import evalc
        ob = self.ob
        sm = Sampler(ob, self.seed)
        want = 8
        ok = 0
        tried = 0
        mism = 0
        self.good_points = []
        limit = 60 if self.pre is None else 400
        tend = time.time() + 20
        while ok < want and tried < limit and time.time() < tend:
            f, n = sm.point(tried)
            tried += 1
            env = self.env_of_point(f, n)
            if not self.pre_holds(env):
                continue
            nat = self.native.call(self.ix, ob, [(f, n)])
            if nat[0] == "dead":
                raise RuntimeError("native driver died")
            if ob.expect == "assert":
                if nat[0] == "crash":
                    ok += 1
                else:
                    v = self.violation("ends in a failed assertion", [(f, n)], nat, "completed instead of failing an assertion")
                    self.res["violations"].append(v)
                    ok += 1
                continue
            self.good_points.append((f, n))
            try:
                model = self.concrete(env)
            except evalc.NoEval as ex:
                model = None
                self.res.setdefault("noeval", str(ex))
            if nat[0] == "ok":
                agree = model is not None and model[0] == "ok" and self.same_out(model, nat)
                if model is None:
                    ok += 1
                    continue
                if not agree:
                    mism += 1
                    self.res.setdefault("mismatch", dict(inputs=[f, n], native=nat, model=model))
                ok += 1
            else:
                if model is not None and model[0] == "ok":
                    mism += 1
                    self.res.setdefault("mismatch", dict(inputs=[f, n], native=nat, model=model))
                ok += 1
        self.res["validated"] = ok - mism
        self.res["mismatches"] = mism
        self.res["tried"] = tried
        if ok == 0:
            # solver witness for the precondition
            if self.pre is not None and ob.mode == "fp":
                st, how, cand = self.fp_decide([self.pre], FALSE)
                self.res["witness"] = st
                if st != "sat":
                    self.res["vacuous"] = True
            else:
                self.res["vacuous"] = True
        if any(er.kind == 'link' for er in self.eng.errors):
            return
        if ob.mode == "real" and ob.refute and ob.expect != "assert":
            first = list(self.good_points[:4])
            self.good_points += self.explore()
            self.good_points += self.scales(first)
        # a claim that already fails natively on a validation point is a counterexample in hand
        tend = time.time() + 20
        for f, n in self.good_points:
            if time.time() > tend:
                break
            nat = self.native.call(self.ix, ob, [(f, n)])
            for lab, c in self.claims:
                r = self.claim_false(self.env_of_point(f, n), nat, c, [(f, n)])
                if r:
                    v = self.violation(lab, [(f, n)], nat, r)
                    v["tentative"] = ob.mode == "real" and nat[0] == "ok"
                    self.res["violations"].append(v)
                    break
            if self.res["violations"]:
                break

    def native_only(self):
        """the code cannot be encoded: nothing is decided, but a call that never returns, crashes or breaks a bit-precise
        claim is still a counterexample when one is found"""
        ob = self.ob
        self.states = []
        if ob.expect == "assert" or not ob.refute:
            return
        sm = Sampler(ob, "native/%s" % self.seed)
        tend = time.time() + 30
        for j in range(600):
            if time.time() > tend:
                return
            f, n = sm.point(j)
            env = self.env_of_point(f, n)
            if not self.pre_holds(env):
                continue
            nat = self.native.call(self.ix, ob, [(f, n)])
            if nat[0] == "crash":
                self.res["violations"].append(self.violation("completes", [(f, n)], nat, "crashed: %s" % nat[1]))
                return
            if ob.mode != "fp":
                continue
            for lab, c in self.claims:
                why = self.claim_false(env, nat, c, [(f, n)])
                if why:
                    self.res["violations"].append(self.violation(lab, [(f, n)], nat, why))
                    return

    def explore(self):
        """inputs that take branches of the code no validation point takes: by changing one of those points at a time, and
        from the solver for paths still not taken; only a search for replayable candidates, it decides nothing"""
        from . import evalc
        pcs = [list(s.pc) for s, o in self.states][:200]
        roots = []
        for s, o in self.states:
            roots += list(s.pc) + list(o.values())
        roots = [t for t in roots if not isinstance(t, (int, float))]
        atoms = [t for t in tm.postorder(roots) if t.sort == tm.BOOL and t.op in ("flt", "fle", "feq", "fident", "bvult", "bvslt", "bveq")]
        atoms = atoms[:40]
        if not (atoms or len(pcs) > 1) or not self.good_points:
            return []
        flat = atoms + [c for pc in pcs for c in pc]

        def signs(pt):
            """outcome of every atom, and which path is taken"""
            try:
                v = [bool(x) for x in evalc.eval_ieee(flat, self.env_of_point(*pt))]
            except evalc.NoEval:
                return None
            i = len(atoms)
            path = -1
            for k, pc in enumerate(pcs):
                if all(v[i:i + len(pc)]) and path < 0:
                    path = k
                i += len(pc)
            return tuple(v[:len(atoms)]), path
        base = [p for p in self.good_points[:5]]
        seen = [set() for _ in atoms]
        paths = set()

        def note(v):
            for q, x in zip(seen, v[0]):
                q.add(x)
            paths.add(v[1])

        def new(v):
            return [c for c, (q, x) in enumerate(zip(seen, v[0])) if x not in q] + (["path"] if v[1] not in paths else [])
        for p in base:
            v = signs(p)
            if v is None:
                return []
            note(v)

        def complete():
            return all(len(q) == 2 for q in seen) and len(paths) >= len(pcs)
        if complete():
            return []
        # arguments that reach a library function a condition depends on
        arg = {}
        for t in tm.postorder(atoms):
            if t.op in TRIG or t.op in EXPLOG:
                for u in tm.postorder([t]):
                    if u.op in ("var", "fvar", "bvar") and re.fullmatch(r"a\d+", str(u.attr)):
                        arg.setdefault(int(u.attr[1:]), set()).add(t.op)
        consts = sorted({bitsf(t.attr) for t in tm.postorder(atoms) if t.op == "fc" and t.sort == F32 and math.isfinite(bitsf(t.attr))})[:12]
        out = []
        tend = time.time() + 3
        nf = self.ob.nf

        def inside(g, n, v):
            """neighbours of a point that behave alike, and it with some arguments from elsewhere"""
            return self.neighbours(g, n, lambda p: signs(p) == v, 5)

        def search():
            for p in base:
                f, n = p
                muts = []
                for i in range(nf):
                    x = bitsf(f[i])
                    vals = [x * 2.0 ** k for k in (-20, -14, -10, -7, -3, 3, 7, 10, 14, 20)] + [0.0, -x, 1.0, -1.0]
                    vals += consts + [c * 1.01 for c in consts] + [c * 0.99 for c in consts]
                    vals += [bitsf(f[j]) for j in range(nf) if j != i][:8] + [-bitsf(f[j]) for j in range(nf) if j != i][:8]
                    if arg.get(i, set()) & TRIG:
                        vals += CRITICAL + [-y for y in CRITICAL]
                    if arg.get(i, set()) & EXPLOG:
                        vals += [s * y for y in (2.0, 5.0, 20.0, 50.0, 80.0, 88.5, 100.0) for s in (1, -1)]
                    for y in vals:
                        muts.append((i, i + 1, [y]))
                for w in (2, 3, 4, 9, 16):
                    for i in range(0, nf - w + 1, 1 if nf < 12 else w):
                        blk = [bitsf(b) for b in f[i:i + w]]
                        for k in (-1.0, 2.0 ** -20, 2.0 ** -10, 2.0 ** -4, 2.0 ** 4, 2.0 ** 10):
                            muts.append((i, i + w, [x * k for x in blk]))
                        for j in range(0, nf - w + 1):
                            if j + w <= i:
                                muts.append((i, i + w, [bitsf(b) for b in f[j:j + w]]))
                                muts.append((i, i + w, [-bitsf(b) for b in f[j:j + w]]))
                        for j in range(w):
                            muts.append((i, i + w, [blk[j] if c == j else 0.0 for c in range(w)]))
                            muts.append((i, i + w, [blk[j] if c == j else blk[c] * 2.0 ** -12 for c in range(w)]))
                random.Random(len(f)).shuffle(muts)
                for i, j, ys in muts:
                    if time.time() > tend:
                        return
                    g = f[:i] + [fbits(y) for y in ys] + f[j:]
                    if g == f:
                        continue
                    v = signs((g, n))
                    if v is None or not new(v) or not self.pre_holds(self.env_of_point(g, n)):
                        continue
                    cs = new(v)
                    v0 = signs(p)
                    note(v)
                    out.append((g, n))
                    # and the points where the outcomes that differ are first met on the way there
                    cs += [c for c in range(len(atoms)) if v[0][c] != v0[0][c] and c not in cs][:3]
                    for c in cs[:4]:
                        lo, hi, h2 = [bitsf(b) for b in f[i:j]], [bitsf(b) for b in g[i:j]], g
                        for _ in range(40):
                            mid = [(x + y) / 2 for x, y in zip(lo, hi)]
                            h = f[:i] + [fbits(y) for y in mid] + f[j:]
                            if h in (f, h2):
                                break
                            vm = signs((h, n))
                            if vm is None:
                                break
                            if new(vm) and self.pre_holds(self.env_of_point(h, n)):
                                note(vm)
                                out.append((h, n))
                                out.extend(inside(h, n, vm))
                            if (vm[1] == v[1] if c == "path" else vm[0][c] == v[0][c]):
                                hi, h2 = mid, h
                            else:
                                lo = mid
                        if self.pre_holds(self.env_of_point(h2, n)):
                            out.append((h2, n))
                    if complete() or len(out) >= 16:
                        return
        search()
        # paths nothing has taken yet, and outcomes nothing has had
        tend = time.time() + 6
        asm0 = [self.pre] if self.pre is not None else []
        todo = [(k, None, pc) for k, pc in enumerate(pcs)]
        for c, (at, q) in enumerate(zip(atoms, seen)):
            todo += [(c, x, [at if x else tm.not_(at)]) for x in (True, False) if x not in q]
        for k, x, cs in todo:
            if time.time() > tend or any(c is FALSE for c in cs) or (k in paths if x is None else x in seen[k]):
                continue
            for env in self.witness(asm0 + cs):
                (f, n), = self.point_of_env(env, 1)
                v = signs((f, n))
                if v is None or not self.pre_holds(self.env_of_point(f, n)):
                    continue
                hit = v[1] == k if x is None else v[0][k] == x
                fresh = bool(new(v))
                note(v)
                if fresh or hit:
                    out.append((f, n))
                    out += inside(f, n, v)
                if hit:
                    break
        return out

    def neighbours(self, g, n, alike, want, tries=80):
        """points near (g, n), or with some arguments of it, that satisfy alike and the precondition"""
        nf = self.ob.nf
        r = random.Random("%s/%s" % (g, n))
        near = []
        for _ in range(tries):
            if len(near) >= want:
                break
            h = list(g)
            if self.good_points and r.random() < .6:
                f = r.choice(self.good_points[:8])[0]
                cut = sorted((r.randint(0, nf), r.randint(0, nf)))
                if r.random() < .5:
                    h[cut[0]:cut[1]] = f[cut[0]:cut[1]]
                else:
                    h = f[:cut[0]] + h[cut[0]:cut[1]] + f[cut[1]:]
            w = r.choice([x for x in (1, 2, 3, 4, 9, 16) if x <= max(nf, 1)])
            i = r.randint(0, nf - w) if nf >= w else 0
            k = 1 + r.choice((1, -1)) * 2.0 ** -r.randint(2, 14)
            if r.random() < .7:
                for j in range(i, min(i + w, nf)):
                    h[j] = fbits(bitsf(h[j]) * (k if r.random() < .7 else 1 + r.choice((1, -1)) * 2.0 ** -r.randint(2, 14)))
            if h != g and alike((h, n)) and self.pre_holds(self.env_of_point(h, n)):
                near.append((h, n))
        return near

    def witness(self, asm):
        """inputs for which asm holds, by the solver"""
        from . import real
        try:
            pr = real.RealProof(1500)
            st, info = pr.prove(asm, FALSE)
            if st == "sat":
                return self.real_candidates(info, 2)
        except Exception:
            pass
        return []

    def scales(self, base):
        """some points again with all arguments, or one run of them, much smaller or larger"""
        nf = self.ob.nf
        if not nf:
            return []
        out = []
        tend = time.time() + 4
        r = random.Random(nf)
        runs = [(0, nf)] + [(i, i + w) for w in (1, 2, 3, 4, 9, 16) if w < nf for i in range(0, nf - w + 1, w)]
        todo = [(p, run, k) for p in base for run in runs for k in (-10, -20, -30, -40, 10, 20, 30)]
        whole = [t for t in todo if t[1] == (0, nf)]
        rest = [t for t in todo if t[1] != (0, nf)]
        r.shuffle(rest)
        for (f, n), (i, j), k in whole + rest[:60]:
            if time.time() > tend or len(out) >= 40:
                break
            g = f[:i] + [fbits(bitsf(b) * 2.0 ** k) for b in f[i:j]] + f[j:]
            if self.pre_holds(self.env_of_point(g, n)):
                out.append((g, n))
        return out

    def concrete(self, env):
        """evaluate the symbolic result at a point"""
        from . import evalc
        for s, o in self.states:
            if all(evalc.eval_ieee(list(s.pc), env)):
                names = ["o%d" % i for i in range(self.ob.nr)] + ["k%d" % i for i in range(self.ob.nk)]
                vs = evalc.eval_ieee([o[x] for x in names], env)
                r = [evalc.np_to_bits(v) for v in vs[:self.ob.nr]]
                k = [int(v) & ((1 << 64) - 1) for v in vs[self.ob.nr:]]
                return ("ok", r, k)
        return ("error",)

    def same_out(self, a, b):
        for x, y in zip(a[1], b[1]):
            if x != y:
                fx, fy = bitsf(x), bitsf(y)
                if not (fx != fx and fy != fy):
                    return False
        return a[2] == b[2]

    # refutation ---------------------------------------------------------------
    def claim_false(self, env, nat, c, calls, slack=None, asm=None):
        """reason string when claim c is definitely false of the native result"""
        from . import evalc
        ob = self.ob
        if nat[0] == "crash":
            return "crashed: %s" % nat[1]
        if nat[0] != "ok":
            return None
        full = dict(env)
        for i, b in enumerate(nat[1]):
            full["o%d" % i] = b
        for i, v in enumerate(nat[2]):
            full["k%d" % i] = v
        if ob.mode == "fp":
            try:
                return None if evalc.eval_ieee([c], full)[0] else "claim is false of the native result"
            except evalc.NoEval:
                return None
        # exact-arithmetic claim: the native result must lie in the interval of
        # the implementation and the claim must fail for that whole interval
        iv = self.ivenv(env)
        if iv is None:
            return None
        slack = ob.slack
        if ob.err:
            # the claim is about the native result itself; only where nothing can have left the normal range
            vs = [bitsf(env["a%d" % i]) for i in range(ob.nf)]
            if not all(v == 0 or 2.0 ** -16 <= abs(v) <= 2.0 ** 16 for v in vs) or not all(math.isfinite(bitsf(b)) for b in nat[1]):
                return None
            full = dict(iv)
            full.update({"o%d" % i: evalc.Iv(evalc.mpf(bitsf(b))) for i, b in enumerate(nat[1])})
            r = evalc.eval_iv([c], full, False)[0]
            return "the rounding error is larger than claimed" if r is False else None
        encl = self.enclosure(iv, nat)
        full = dict(iv)
        full.update(encl[0])
        if any(not math.isfinite(bitsf(b)) for b in nat[1]):
            return None
        r = evalc.eval_iv([c], full, False, slack=slack if encl[1] else (slack or 0) + encl[2])[0]
        if r is False and not encl[1] and not self.stable(calls, nat, encl[2] / 10):
            return None
        return "claim is false of the native result beyond its rounding error" if r is False else None

    def stable(self, calls, nat, tol):
        """small changes of the arguments change the native result little"""
        r = random.Random(str(calls))
        f, n = calls[-1]
        for _ in range(6):
            g = [fbits(bitsf(b) * (1 + r.choice((1, -1)) * 2.0 ** -20)) for b in f]
            x = self.native.call(self.ix, self.ob, calls[:-1] + [(g, n)])
            if x[0] != "ok" or x[2] != nat[2] or not all(math.isfinite(bitsf(b)) and abs(bitsf(a) - bitsf(b)) <= tol for a, b in zip(nat[1], x[1])):
                return False
        return True

    def enclosure(self, iv, nat):
        """(env for outputs, used implementation intervals?, extra slack)"""
        from . import evalc
        from mpmath import mpf
        ob = self.ob
        names = ["o%d" % i for i in range(ob.nr)]
        for s, o in self.states:
            pcv = evalc.eval_iv(list(s.pc), iv, True) if s.pc else []
            if any(v is False for v in pcv):
                continue
            try:
                vals = evalc.eval_iv([o[x] for x in names] + [o["k%d" % i] for i in range(ob.nk)], iv, True)
            except Exception:
                vals = None
            if vals is None:
                continue
            env = {}
            good = True
            for x, v, b in zip(names, vals, nat[1]):
                nv = mpf(bitsf(b)) if math.isfinite(bitsf(b)) else None
                if not isinstance(v, evalc.Iv) or nv is None or not (v.lo <= nv <= v.hi):
                    good = False
                    break
                env[x] = v
            if good:
                for i, kv in enumerate(nat[2]):
                    env["k%d" % i] = kv
                if all(v is True for v in pcv):
                    return env, True, 0
        env = {}
        m = mpf(1)
        for x, b in zip(names, nat[1]):
            v = bitsf(b)
            env[x] = evalc.Iv(v) if math.isfinite(v) else v
            if math.isfinite(v):
                m = max(m, abs(mpf(v)))
        for v in iv.values():
            if isinstance(v, evalc.Iv):
                m = max(m, abs(v.lo))
        for i, kv in enumerate(nat[2]):
            env["k%d" % i] = kv
        # heuristic tolerance, only for code with no interval reading
        return env, False, mpf("1e-3") * m ** 3

    def violation(self, lab, calls, nat, why):
        return dict(obligation=self.ob.name, label=lab, why=why, config=self.ob.config, code=self.ob.code,
                    inputs=[dict(a=[bitsf(x) if math.isfinite(bitsf(x)) else str(bitsf(x)) for x in f],
                                 a_bits=["%08x" % (x & 0xffffffff) for x in f],
                                 n=[tm.sx(v & 0xffffffff, 32) for v in n]) for f, n in calls],
                    native=dict(status=nat[0], r=[str(bitsf(b)) for b in nat[1]], r_bits=["%08x" % b for b in nat[1]],
                                k=[tm.sx(v, 64) for v in nat[2]]) if nat[0] == "ok" else dict(status="crash", why=nat[1]))

    def refute(self, lab, asm, g, cands, err, state, completes, ncall, label):
        ob = self.ob
        if err is not None:
            return self.refute_err(lab, asm, cands, err)
        pts = []
        for env in cands:
            pts.append(self.point_of_env(env, ncall))
        if cands and ncall == 1 and ob.mode == "real" and ob.nf:
            # functions the solver knows nothing of have other values than its model says: vary what the model leaves open
            from . import evalc

            def alike(p):
                try:
                    return all(evalc.eval_ieee(list(asm), self.env_of_point(*p)))
                except evalc.NoEval:
                    return False
            for (f, n), in list(pts)[:3]:
                pts += [[p] for p in self.neighbours(f, n, alike, 10)]
        if completes:
            for calls in pts:
                nat = self.native.call(self.ix, ob, calls)
                if nat[0] == "ok":
                    return self.violation(lab, calls, nat, "completed instead of failing an assertion")
            return None
        claim = dict(self.claims).get(label)
        dom = label is not None and label.startswith("domain:")
        if not ob.refute:
            return None
        sm = Sampler(ob, "refute/%s" % self.seed)
        n_extra = 400 if ob.mode == "fp" else 150
        tend = time.time() + 25
        j = 0
        # equal arguments / special values etc. found by sampling are only a search
        # for a replayable witness; the solver has already failed to prove the claim
        while True:
            if j < len(pts):
                calls = pts[j]
            elif j < len(pts) + n_extra and time.time() < tend:
                calls = [sm.point(j) for _ in range(ncall)]
            else:
                return None
            j += 1
            f, n = calls[-1]
            env = self.env_of_point(f, n)
            if not self.pre_holds(env):
                continue
            nat = self.native.call(self.ix, ob, calls)
            if dom:
                r = self.domain_false(env, nat, g)
            else:
                r = self.claim_false(env, nat, claim, calls) if claim is not None else None
            if r:
                return self.violation(lab, calls, nat, r)
            if not dom and nat[0] == "ok" and ob.mode == "real" and any(not math.isfinite(bitsf(b)) for b in nat[1]):
                continue

    def domain_false(self, env, nat, g):
        from . import evalc
        iv = self.ivenv(env)
        if iv is None or nat[0] != "ok" or self.ob.approx:
            return None
        if all(math.isfinite(bitsf(b)) for b in nat[1]):
            return None
        if any(abs(v.lo) > 1e6 for v in iv.values() if isinstance(v, evalc.Iv)):
            return None
        r = evalc.eval_iv([g], iv, False)[0]
        return "non-finite native result on an input inside the domain" if r is False else None

    def point_of_env(self, env, ncall):
        calls = []
        for tag in (["p", ""] if ncall == 2 else [""]):
            f = []
            for i in range(self.ob.nf):
                v = env.get("a%d%s" % (i, tag), 0)
                f.append(fbits(v) if isinstance(v, float) else int(v) & 0xffffffff)
            n = [int(env.get("n%d%s" % (i, tag), 0)) for i in range(self.ob.ni)]
            calls.append((f, n))
        return calls

    def refute_err(self, lab, asm, cands, err):
        """a feasible error path: reproduce it natively (sanitizers for memory errors)"""
        ob = self.ob
        pts = [self.point_of_env(e, 1) for e in cands]
        pts += [[p] for p in self.good_points]
        if err.kind == "link":
            return self.violation(lab, pts[0] if pts else [([0] * ob.nf, [0] * ob.ni)], ("crash", err.msg), err.msg)
        exe = self.native
        if err.kind in ("memory", "shared"):
            exe = Native(self.flavour_exe("asan" if err.kind == "memory" else "threads"))
        try:
            for calls in pts:
                if not self.pre_holds(self.env_of_point(*calls[-1])):
                    continue
                nat = exe.call(self.ix, ob, calls)
                if nat[0] == "crash":
                    return self.violation(lab, calls, nat, "%s: %s" % (err.kind, err.msg))
        finally:
            if exe is not self.native:
                exe.close()
        return None


from .symex import _Ty  # noqa: E402
_FT = _Ty("float", None, 4)
_IT = _Ty("int", 64, 8)


# ------------------------------------------------------------------ driver
def run_check(prop, obs, tier, seed, jobs=8):
    """run every obligation; returns the aggregated result"""
    t0 = time.time()
    obs = [o for o in obs if tier == "thorough" or o.tier == "quick"]
    names = set()
    for o in obs:
        if o.name in names:
            raise SystemExit("duplicate obligation %s" % o.name)
        names.add(o.name)
    b = build.Build()
    try:
        return _run_check(b, prop, obs, tier, seed, jobs, t0)
    finally:
        b.close()


def _run_check(b, prop, obs, tier, seed, jobs, t0):
    from .llvmc import Module
    groups = {}
    for o in obs:
        groups.setdefault((o.config, o.against), []).append(o)
    results = []
    tmo = int(os.environ.get("ZCM_TIMEOUT", "20" if tier == "quick" else "120")) * 1000
    hard = 240 if tier == "quick" else 1500
    budget = time.time() + (600 if tier == "quick" else 6 * 3600)
    broken = {}
    for gi, ((cfg, against), lst) in enumerate(groups.items()):
        for c in against:
            if c not in broken:
                try:
                    b.libbc(c)
                    broken[c] = None
                except build.BuildError as ex:
                    broken[c] = str(ex)
                    results.append(unusable("configuration_" + c, "the library compiles", str(ex)))
        against = tuple(c for c in against if broken.get(c) is None)
        src = os.path.join(b.dir, "h%d.cpp" % gi)
        lst, bad = usable(b, src, lst, (cfg,) + against)
        for o, msg in bad:
            results.append(unusable(o.name, "the interface it uses compiles", msg, o.code))
        if not lst:
            continue
        msrc = os.path.join(b.dir, "hm%d.cpp" % gi)
        with open(msrc, "w") as f:
            f.write("#define ZH_MAIN 1\n" + harness_source(lst))
        cfgs = (cfg,) + against
        with cf.ThreadPoolExecutor(8) as ex:
            mods = [ex.submit(b.module, c, src) for c in cfgs]
            exes = [ex.submit(b.native, c, msrc) for c in cfgs]
            mods = [Module(m.result()) for m in mods]
            exes = [e.result() for e in exes]

        def flavour(fl, msrc=msrc, cfg=cfg):
            return b.native(cfg, msrc, fl)
        results += _schedule(lst, mods, exes, cfgs, flavour, seed, tmo, hard, jobs, budget)
    return dict(property=prop, results=results, wall=time.time() - t0)


def unusable(name, label, msg, code=""):
    """something that does not compile; whether that breaks the property is for the caller to say"""
    return dict(name=name, goals=[], violations=[], error=msg[-600:],
                uncompilable=dict(obligation=name, label=label, why="does not compile", code=code, inputs=[],
                                  native=dict(status="compiler", why=msg[-1500:])))


def usable(b, src, obs, cfgs):
    """split obs into those whose harness compiles in every configuration and the others"""
    bad = []
    for _ in range(8):
        text = harness_source(obs)
        with open(src, "w") as f:
            f.write(text)
        starts = [i + 1 for i, l in enumerate(text.split("\n")) if l.startswith('extern "C" void h_')]
        hit = {}
        for c in cfgs:
            b.libbc(c)
            msg = b.syntax(c, src)
            if msg is None:
                continue
            for l in msg.split("\n"):
                m = re.match(r"(?:In file included from )?" + re.escape(src) + r":(\d+)", l)
                if m:
                    k = bisect.bisect_right(starts, int(m.group(1))) - 1
                    if 0 <= k < len(obs):
                        hit.setdefault(k, l)
            if not hit:
                raise build.BuildError(msg)
        if not hit:
            return obs, bad
        bad += [(obs[k], m) for k, m in hit.items()]
        obs = [o for k, o in enumerate(obs) if k not in hit]
        if not obs:
            break
    return obs, bad


def _child(ob, ix, mods, exes, cfgs, flavour, seed, tmo, wfd, give_up):
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, resource.RLIM_INFINITY))
    sys.setrecursionlimit(20000)
    from . import smt
    nats = [Native(e) for e in exes]
    run = Run(ob, ix, mods[0], nats[0], seed, tmo, flavour, list(zip(cfgs, mods, nats))[1:], give_up)
    try:
        res = run.run()
    except Exception as ex:  # Unsupported, Budget, ...
        res = run.res
        res["error"] = "%s: %s" % (type(ex).__name__, ex)
        res["trace"] = traceback.format_exc()[-1500:]
    for nat in nats:
        nat.close()
    s = smt.STATS
    res["stats"] = dict(queries=s.queries, time=round(s.time, 3), unsat=s.unsat, sat=s.sat, unknown=s.unknown, trivial=s.trivial)
    data = json.dumps(res, default=str).encode()
    while data:
        data = data[os.write(wfd, data):]
    os.close(wfd)


def _schedule(obs, mods, exes, cfgs, flavour, seed, tmo, hard, jobs, budget):
    todo = list(enumerate(obs))
    todo.sort(key=lambda t: -(t[1].timeout or 0))
    live = {}
    out = {}
    while todo or live:
        while todo and len(live) < jobs:
            ix, ob = todo.pop(0)
            if time.time() > budget:
                out[ix] = dict(name=ob.name, goals=[], violations=[], error="check time budget exhausted")
                continue
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                code = 0
                try:
                    os.close(r)
                    _child(ob, ix, mods, exes, cfgs, flavour, seed, tmo, w, 0.7 * max(hard, 3 * (ob.timeout or 0)))
                except BaseException:
                    traceback.print_exc()
                    code = 9
                os._exit(code)
            os.close(w)
            live[r] = (pid, ix, ob, time.time(), [])
        if not live:
            break
        rs, _, _ = select.select(list(live), [], [], 0.5)
        for fd in rs:
            pid, ix, ob, ts, buf = live[fd]
            d = os.read(fd, 1 << 16)
            if d:
                buf.append(d)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del live[fd]
            try:
                out[ix] = json.loads(b"".join(buf))
            except ValueError:
                out[ix] = dict(name=ob.name, goals=[], violations=[], error="worker died")
        now = time.time()
        for fd in list(live):
            pid, ix, ob, ts, buf = live[fd]
            lim = max(hard, 3 * (ob.timeout or 0))
            if now - ts > lim or now > budget + 60:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(pid, 0)
                os.close(fd)
                del live[fd]
                out[ix] = dict(name=ob.name, goals=[], violations=[], error="wall-clock limit")
    return [out[i] for i in sorted(out)]
