"""Which float terms are exact when every input is a multiple of 2^-frac of magnitude at most `bound`: each operation's result
is a multiple of some 2^-f below 2^(24-f), hence a binary32 number, hence not rounded."""
from fractions import Fraction
from . import terms as tm
from .terms import F32, F64


class NoWhole(Exception):
    pass


def analyse(roots, bound, frac):
    memo = {}
    for t in tm.postorder(roots):
        if t.sort not in (F32, F64):
            continue
        a = [memo.get(x.id) for x in t.args]
        memo[t.id] = b, f = step(t, [x for x in a if x is not None], bound, frac)
        if b * Fraction(2) ** f > Fraction(2) ** (24 if t.sort == F32 else 53):
            raise NoWhole("%s may need more than 24 bits" % t.op)
    return memo


def step(t, a, bound, frac):
    op = t.op
    if op == "fvar":
        return Fraction(bound), frac
    if op == "fc":
        v = tm.fval(t)
        if v != v or abs(v) == float("inf"):
            raise NoWhole("constant %r" % v)
        v = Fraction(v)
        return abs(v), v.denominator.bit_length() - 1
    if op in ("fneg", "fabs", "copysign"):
        return a[0]
    if op in ("ite", "fmin", "fmax"):
        return max(x[0] for x in a), max(x[1] for x in a)
    if op in ("fadd", "fsub"):
        return a[0][0] + a[1][0], max(a[0][1], a[1][1])
    if op == "fmul":
        return a[0][0] * a[1][0], a[0][1] + a[1][1]
    if op == "fma":
        return a[0][0] * a[1][0] + a[2][0], max(a[0][1] + a[1][1], a[2][1])
    if op == "fdiv" and t.args[1].op == "fc":
        v = abs(Fraction(tm.fval(t.args[1])))
        if v and v.numerator & (v.numerator - 1) == 0 and v.denominator & (v.denominator - 1) == 0:
            e = v.numerator.bit_length() - v.denominator.bit_length()
            return a[0][0] / v, max(a[0][1] + e, 0)
    if op == "fcast":
        return a[0]
    if op in ("floor", "ceil", "trunc", "round", "nearbyint"):
        return a[0][0] + 1, 0
    raise NoWhole(op)
