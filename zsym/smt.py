"""Interpretations of the term DAG in z3: bit-precise IEEE ('fp') and exact
real arithmetic ('real'), plus the proof driver."""
import time
import z3
from . import terms as tm
from .terms import T, F32, F64, BOOL, TRUE, FALSE
from fractions import Fraction

RNE = z3.RNE()
_RM = {"floor": z3.RTN, "ceil": z3.RTP, "trunc": z3.RTZ, "nearbyint": z3.RNE, "round": z3.RNA}


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.trivial = 0


STATS = Stats()


class Undecided(Exception):
    pass


def _fs(sort):
    if isinstance(sort, tuple):
        return z3.BitVecSort(sort[1])
    return z3.Float32() if sort == F32 else z3.Float64()


class FPInterp:
    """IEEE-754 semantics, round to nearest even; libm functions other than
    the exactly specified ones are uninterpreted."""

    def __init__(self, abstract=False):
        self.abstract = abstract     # rounding operations as uninterpreted functions
        self.memo = {}
        self.ufs = {}
        self.vars = {}
        self.uf_used = set()
        self.axioms = None           # a list: facts about the abstracted operations are added to it

    def rules(self, op, a, r):
        """when the IEEE operation gives NaN, and the sign of what it gives otherwise"""
        nan, inf, zero, neg = z3.fpIsNaN, z3.fpIsInf, z3.fpIsZero, z3.fpIsNegative
        if op == "fmul":
            x, y = a
            self.axioms.append(nan(r) == z3.Or(nan(x), nan(y), z3.And(zero(x), inf(y)), z3.And(inf(x), zero(y))))
            self.axioms.append(z3.Or(nan(r), neg(r) == z3.Xor(neg(x), neg(y))))
            self.axioms.append(z3.Implies(z3.Or(inf(x), inf(y)), z3.Or(nan(r), inf(r))))
            self.axioms.append(z3.Implies(z3.Or(zero(x), zero(y)), z3.Or(nan(r), zero(r))))
        elif op == "fdiv":
            x, y = a
            self.axioms.append(nan(r) == z3.Or(nan(x), nan(y), z3.And(zero(x), zero(y)), z3.And(inf(x), inf(y))))
            self.axioms.append(z3.Or(nan(r), neg(r) == z3.Xor(neg(x), neg(y))))
            self.axioms.append(z3.Implies(z3.Or(inf(x), zero(y)), z3.Or(nan(r), inf(r))))
            self.axioms.append(z3.Implies(z3.Or(zero(x), inf(y)), z3.Or(nan(r), zero(r))))
        elif op in ("fadd", "fsub"):
            x, y = a
            opp = neg(x) != neg(y) if op == "fadd" else neg(x) == neg(y)
            self.axioms.append(nan(r) == z3.Or(nan(x), nan(y), z3.And(inf(x), inf(y), opp)))
            self.axioms.append(z3.Implies(z3.Or(inf(x), inf(y)), z3.Or(nan(r), inf(r))))
            # the sum of two of the same sign has it
            self.axioms.append(z3.Implies(z3.And(z3.Not(opp), z3.Not(nan(r))), neg(r) == neg(x)))
        elif op == "fma":
            self.axioms.append(z3.Implies(z3.Or(*[nan(x) for x in a]), nan(r)))
        elif op == "fcast":
            self.axioms.append(nan(r) == nan(a[0]))
            self.axioms.append(z3.Or(nan(r), neg(r) == neg(a[0])))
            self.axioms.append(z3.Implies(inf(a[0]), inf(r)))
            self.axioms.append(z3.Implies(zero(a[0]), zero(r)))
        elif op in ("s2f", "u2f"):
            self.axioms.append(z3.Not(nan(r)))
        elif op == "sqrt":
            self.axioms.append(z3.Implies(z3.And(inf(a[0]), z3.Not(neg(a[0]))), z3.And(inf(r), z3.Not(neg(r)))))
            self.axioms.append(z3.Implies(zero(a[0]), zero(r)))
            self.axioms.append(nan(r) == z3.Or(nan(a[0]), z3.And(neg(a[0]), z3.Not(zero(a[0])))))

    def uf(self, name, args, sort):
        k = (name, tuple(a.sort().sexpr() if hasattr(a.sort(), "sexpr") else str(a.sort()) for a in args), sort)
        f = self.ufs.get(k)
        if f is None:
            f = z3.Function("uf_%s_%s_%d" % (name, sort if isinstance(sort, str) else "b", len(self.ufs)), *[a.sort() for a in args], _fs(sort))
            self.ufs[k] = f
        self.uf_used.add(name)
        return f(*args)

    def leaf(self, t):
        if t.op == "fvar":
            n = 32 if t.sort == F32 else 64
            b = z3.BitVec(str(t.attr), n)
            self.vars[t.attr] = b
            return z3.fpBVToFP(b, _fs(t.sort))
        if t.op == "bvar":
            b = z3.BitVec(str(t.attr), t.sort[1])
            self.vars[t.attr] = b
            return b
        b = z3.Bool(str(t.attr))
        self.vars[t.attr] = b
        return b

    def __call__(self, root):
        memo = self.memo
        r = memo.get(root.id)
        if r is not None:
            return r
        for t in tm.postorder([root]):
            if t.id not in memo:
                memo[t.id] = self.conv(t, [memo[a.id] for a in t.args])
        return memo[root.id]

    def conv(self, t, a):
        op = t.op
        if op in ("fvar", "bvar", "pvar"):
            return self.leaf(t)
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "bvc":
            return z3.BitVecVal(t.attr, t.sort[1])
        if op == "fc":
            n = 32 if t.sort == F32 else 64
            v = tm.fval(t)
            if v != v:
                return z3.fpNaN(_fs(t.sort))
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal(t.attr, n), _fs(t.sort)))
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(*a)
        if op == "ite":
            return z3.If(a[0], a[1], a[2])
        if op == "beq":
            return a[0] == a[1]
        if op == "bveq":
            return a[0] == a[1]
        if op == "bvult":
            return z3.ULT(a[0], a[1])
        if op == "bvslt":
            return a[0] < a[1]
        if self.abstract and hard_bv(t):
            return self.uf(op, a, t.sort)
        if op in _BVZ:
            return _BVZ[op](a[0], a[1])
        if op == "extract":
            return z3.Extract(t.attr[0], t.attr[1], a[0])
        if op == "concat":
            return z3.Concat(a[0], a[1])
        if op == "zext":
            return z3.ZeroExt(t.sort[1] - a[0].size(), a[0])
        if op == "sext":
            return z3.SignExt(t.sort[1] - a[0].size(), a[0])
        if op == "b2bv":
            return z3.If(a[0], z3.BitVecVal(1, t.sort[1]), z3.BitVecVal(0, t.sort[1]))
        if self.abstract and op in _ROUNDING:
            r = self.uf(op, a, t.sort)
            if self.axioms is not None:
                self.rules(op, a, r)
            return r
        if op == "fadd":
            return z3.fpAdd(RNE, a[0], a[1])
        if op == "fsub":
            return z3.fpSub(RNE, a[0], a[1])
        if op == "fmul":
            return z3.fpMul(RNE, a[0], a[1])
        if op == "fdiv":
            return z3.fpDiv(RNE, a[0], a[1])
        if op == "fneg":
            return z3.fpNeg(a[0])
        if op == "fabs":
            return z3.fpAbs(a[0])
        if op == "sqrt":
            return z3.fpSqrt(RNE, a[0])
        if op == "fma":
            return z3.fpFMA(RNE, a[0], a[1], a[2])
        if op in _RM:
            return z3.fpRoundToIntegral(_RM[op](), a[0])
        if op == "fmin":
            return z3.If(z3.fpIsNaN(a[0]), a[1], z3.If(z3.fpIsNaN(a[1]), a[0], z3.If(z3.fpLT(a[1], a[0]), a[1], a[0])))
        if op == "fmax":
            return z3.If(z3.fpIsNaN(a[0]), a[1], z3.If(z3.fpIsNaN(a[1]), a[0], z3.If(z3.fpLT(a[0], a[1]), a[1], a[0])))
        if op == "flt":
            return z3.fpLT(a[0], a[1])
        if op == "fle":
            return z3.fpLEQ(a[0], a[1])
        if op == "feq":
            return z3.fpEQ(a[0], a[1])
        if op == "fident":
            return a[0] == a[1]
        if op == "isnan":
            return z3.fpIsNaN(a[0])
        if op == "signbit":
            return z3.Extract(a[0].ebits() + a[0].sbits() - 1, a[0].ebits() + a[0].sbits() - 1, self.bits(t.args[0], a[0])) == 1
        if op == "copysign":
            s = z3.Extract(a[1].ebits() + a[1].sbits() - 1, a[1].ebits() + a[1].sbits() - 1, self.bits(t.args[1], a[1])) == 1
            m = z3.fpAbs(a[0])
            return z3.If(s, z3.fpNeg(m), m)
        if op == "f2b":
            return self.bits(t.args[0], a[0])
        if op == "b2f":
            return z3.fpBVToFP(a[0], _fs(t.sort))
        if op == "fcast":
            return z3.fpFPToFP(RNE, a[0], _fs(t.sort))
        if op == "s2f":
            return z3.fpSignedToFP(RNE, a[0], _fs(t.sort))
        if op == "u2f":
            return z3.fpUnsignedToFP(RNE, a[0], _fs(t.sort))
        if op == "f2s":
            return z3.fpToSBV(z3.RTZ(), a[0], z3.BitVecSort(t.sort[1]))
        if op == "f2u":
            return z3.fpToUBV(z3.RTZ(), a[0], z3.BitVecSort(t.sort[1]))
        return self.uf(op, a, t.sort)

    def bits(self, t, z):
        if t.op == "fvar":
            return self.vars[t.attr]
        return z3.fpToIEEEBV(z)


class PolyInterp(FPInterp):
    """the float operations as exact real arithmetic; everything that is not a polynomial is an atom"""

    def leaf(self, t):
        if t.op == "fvar":
            return z3.Real(str(t.attr))
        return FPInterp.leaf(self, t)

    def conv(self, t, a):
        op = t.op
        if op in ("fadd", "fsub", "fmul", "fneg", "fcast"):
            return {"fadd": lambda: a[0] + a[1], "fsub": lambda: a[0] - a[1], "fmul": lambda: a[0] * a[1],
                    "fneg": lambda: -a[0], "fcast": lambda: a[0]}[op]()
        if op == "fc":
            v = tm.fval(t)
            if v != v or v in (float("inf"), -float("inf")):
                raise Undecided("no real value")
            n, d = v.as_integer_ratio()
            return z3.Q(n, d)
        if op in ("flt", "fle", "feq", "fident"):
            return {"flt": lambda: a[0] < a[1], "fle": lambda: a[0] <= a[1], "feq": lambda: a[0] == a[1], "fident": lambda: a[0] == a[1]}[op]()
        if op == "isnan":
            return z3.BoolVal(False)
        if op == "fdiv":
            return a[0] * z3.Real("inv!%d" % t.args[1].id)
        if t.sort in (F32, F64) and op not in ("ite", "fvar"):
            return z3.Real("atom!%d" % t.id)
        return FPInterp.conv(self, t, a)


_HARDBV = {"bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem"}


def hard_bv(t):
    """multiplication or division other than by a small constant (addressing)"""
    return t.op in _HARDBV and not any(x.op == "bvc" and x.attr < 65536 for x in t.args)


_ROUNDING = {"fadd", "fsub", "fmul", "fdiv", "sqrt", "fma", "s2f", "u2f", "fcast"}
_BVZ = {
    "bvadd": lambda x, y: x + y, "bvsub": lambda x, y: x - y, "bvmul": lambda x, y: x * y,
    "bvand": lambda x, y: x & y, "bvor": lambda x, y: x | y, "bvxor": lambda x, y: x ^ y,
    "bvshl": lambda x, y: x << y, "bvlshr": z3.LShR, "bvashr": lambda x, y: x >> y,
    "bvudiv": z3.UDiv, "bvurem": z3.URem, "bvsdiv": lambda x, y: x / y, "bvsrem": z3.SRem,
}


def check(solver_factory, constraints, timeout_ms):
    """-> ('unsat'|'sat'|'unknown', model)"""
    s = solver_factory()
    s.set("timeout", timeout_ms)
    for c in constraints:
        s.add(c)
    t0 = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS.queries += 1
    STATS.time += time.time() - t0
    if r == z3.unsat:
        STATS.unsat += 1
        return "unsat", None
    if r == z3.sat:
        STATS.sat += 1
        return "sat", s.model()
    STATS.unknown += 1
    return "unknown", None


def race(constraints, timeout_ms, factory=z3.Solver):
    """z3 and cvc5 on the same query; a model is only returned by z3"""
    import subprocess
    import tempfile
    sv = factory()
    sv.add(*constraints)
    t0 = time.time()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2") as f:
        f.write("(set-logic ALL)\n" + sv.to_smt2())
        f.flush()
        try:
            p = subprocess.Popen(["cvc5", "--tlimit=%d" % timeout_ms, f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        except OSError:
            p = None
        r, m = check(factory, constraints, min(2000, timeout_ms))
        if r == "unknown" and p is not None:
            try:
                out = p.communicate(timeout=timeout_ms / 1000 + 5)[0]
            except subprocess.TimeoutExpired:
                out = ""
            STATS.queries += 1
            STATS.time += time.time() - t0
            w = out.split()[:1]
            if w == ["unsat"]:
                STATS.unsat += 1
                r = "unsat by cvc5"
            elif w == ["sat"]:
                STATS.sat += 1
                r = "sat by cvc5"
            else:
                r, m = check(factory, constraints, timeout_ms)
        if p is not None and p.poll() is None:
            p.kill()
            p.wait()
    return r, m


def has_rounding(roots):
    return any(t.op in _ROUNDING or hard_bv(t) for t in tm.postorder(roots))
