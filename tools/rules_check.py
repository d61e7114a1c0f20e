#!/opt/veriftools/pyvenv/bin/python
"""Prove every NaN/sign rule of smt.FPInterp.rules in z3's theory of floating point (rules are used where the exact theory is too slow)."""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import z3
from zsym.smt import FPInterp
RM = z3.RNE()
bad = 0
for name, S in (("binary16", z3.FPSort(5, 11)), ("binary32", z3.Float32())):
    x, y, w = z3.FP("x", S), z3.FP("y", S), z3.FP("w", S)
    n = z3.BitVec("n", 32)
    for op, a, r in (("fadd", [x, y], z3.fpAdd(RM, x, y)), ("fsub", [x, y], z3.fpSub(RM, x, y)), ("fmul", [x, y], z3.fpMul(RM, x, y)),
                     ("fdiv", [x, y], z3.fpDiv(RM, x, y)), ("sqrt", [x], z3.fpSqrt(RM, x)), ("fma", [x, y, w], z3.fpFMA(RM, x, y, w)),
                     ("fcast", [x], z3.fpFPToFP(RM, x, z3.Float64())), ("s2f", [n], z3.fpSignedToFP(RM, n, z3.Float32())),
                     ("u2f", [n], z3.fpUnsignedToFP(RM, n, z3.Float32()))):
        I = FPInterp(abstract=True)
        I.axioms = []
        I.rules(op, a, r)
        for k, ax in enumerate(I.axioms):
            s = z3.Solver()
            s.set("timeout", 300000)
            s.add(z3.Not(ax))
            t = time.time()
            v = s.check()
            bad += v != z3.unsat
            print(name, op, k, "proved" if v == z3.unsat else v, "%.1fs" % (time.time() - t), flush=True)
sys.exit(bad != 0)
