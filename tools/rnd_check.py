#!/opt/veriftools/pyvenv/bin/python
"""Concrete executions must satisfy every constraint of zsym/rnd.py: for sampled inputs each float term of a C39 goal is
pinned to the value the evaluator computes, and the constraints have to stay satisfiable."""
import os, random, sys
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import z3
from zsym import core, evalc, rnd, terms as tm, report

TALLY = [0, 0, 0, 0]


def check(self, asm, g):
    r = random.Random(str((g.id, self.ob.name)))
    for _ in range(int(os.environ.get("SAMPLES", "3"))):
        if self.ob.sampler and r.random() < .8:
            xs = self.ob.sampler(r)[0]
        else:
            xs = [r.choice((0.0, 1.0, -1.0, r.uniform(-1, 1), r.uniform(-1, 1) * 2.0 ** r.randint(-70, 20))) for _ in range(self.ob.nf)]
        env = {"a%d" % i: core.fbits(x) for i, x in enumerate(xs)}
        roots = list(asm) + [g]
        try:
            was = [bool(x) for x in evalc.eval_ieee(roots, env)]
        except evalc.NoEval:
            TALLY[1] += 1
            continue
        roots = rnd.canon(roots)
        if [bool(x) for x in evalc.eval_ieee(roots, env)] != was:
            TALLY[3] += 1
            print("UNSOUND canon", self.ob.name, xs, flush=True)
        asm1 = roots[:-1]
        terms = [t for t in tm.postorder(roots) if t.sort in (tm.F32, tm.F64, tm.BOOL)]
        try:
            vals = evalc.eval_ieee(terms, env)
        except evalc.NoEval:
            TALLY[1] += 1
            continue
        val = dict(zip([t.id for t in terms], vals))
        if any(abs(x) > self.ob.rnd for x in xs) or not all(bool(val[a.id]) for a in asm1):
            TALLY[1] += 1
            continue
        try:
            rd = rnd.Rounded(self.ob.rnd)
            for a in roots:
                rd(a)
        except rnd.NoRnd:
            TALLY[2] += 1
            continue
        cons = []
        for t in terms:
            v = val[t.id]
            x = rd.memo[t.id]
            if t.sort == tm.BOOL:
                cons.append(x == bool(v))
            else:
                f = float(v)
                cons.append(x[1] if f != f or abs(f) == float("inf") else z3.Or(x[1], x[0] == rnd.q(Fraction(f))))
        st = []
        for extra in ([], rd.nonlinear):
            s = z3.Solver()
            s.set("timeout", 20000)
            s.add(*cons + rd.cons + rd.pairs() + extra)
            st.append(str(s.check()))
            if st[-1] == "unsat":
                TALLY[3] += 1
                print("UNSOUND", self.ob.name, xs, len(st), flush=True)
                if os.environ.get("CORE"):
                    s = z3.Solver()
                    s.set("unsat_core", True)
                    for i, c in enumerate(cons + rd.cons + rd.pairs() + extra):
                        s.assert_and_track(c, "k%d" % i)
                    s.check()
                    for k in s.unsat_core():
                        print("   ", (cons + rd.cons + rd.pairs() + extra)[int(str(k)[1:])])
                break
        TALLY[0] += 1
    return "unsat", "checked", []


core.Run.rnd_decide = check
run = core.Run.run


def counted(self):
    r = run(self)
    print("%s: samples %d, outside the assumptions %d, not encodable %d, unsound %d" % ((self.ob.name,) + tuple(TALLY)), flush=True)
    TALLY[:] = [0, 0, 0, 0]
    return r


core.Run.run = counted
report.main(["C39"] + sys.argv[1:])
