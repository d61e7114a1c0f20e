"""Concrete evaluation of term DAGs.

 * eval_ieee : bit-exact binary32/binary64 evaluation (libm via ctypes), used
   to validate the translation against the natively compiled harness.
 * Interval arithmetic (mpmath, outward rounded).  Two uses: evaluating the
   DAG of the implementation with every operation widened by its floating
   point rounding error - an enclosure of both the exact real value and the
   value the machine computes - and evaluating the property itself exactly.
"""
import ctypes
import math
import struct
import numpy as np
import mpmath
from mpmath import mp, mpf
from . import terms as tm
from .terms import F32, F64, BOOL

mp.prec = 160
_libm = ctypes.CDLL("libm.so.6")
np.seterr(all="ignore")


def _mf(name, n, f32):
    f = getattr(_libm, name + ("f" if f32 else ""))
    ct = ctypes.c_float if f32 else ctypes.c_double
    f.restype = ct
    f.argtypes = [ct] * n
    return f


_M1 = {"sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp",
       "exp2", "expm1", "log", "log2", "log10", "log1p", "cbrt", "floor", "ceil", "trunc", "round", "nearbyint", "fabs"}
_M2 = {"pow", "atan2", "fmod", "hypot", "copysign", "fmin", "fmax", "remainder", "fdim"}

LIBM = _M1 | _M2


def f32bits(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


def bits_to_np(bits, sort):
    if sort == F32:
        return np.uint32(bits).view(np.float32)
    return np.uint64(bits).view(np.float64)


def np_to_bits(x):
    if isinstance(x, np.float32):
        return int(x.view(np.uint32))
    return int(x.view(np.uint64))


class NoEval(Exception):
    pass


def eval_ieee(roots, env):
    """env: leaf name -> bits (int) or bool.  Returns list of np.float32/int/bool."""
    memo = {}
    for t in tm.postorder(roots):
        memo[t.id] = _ei(t, [memo[a.id] for a in t.args], env)
    return [memo[r.id] for r in roots]


def _ei(t, a, env):
    op = t.op
    if op == "fvar":
        if t.attr not in env:
            raise NoEval(t.attr)
        return bits_to_np(env[t.attr], t.sort)
    if op == "bvar":
        if t.attr not in env:
            raise NoEval(t.attr)
        return env[t.attr] & ((1 << t.sort[1]) - 1)
    if op == "pvar":
        if t.attr not in env:
            raise NoEval(t.attr)
        return bool(env[t.attr])
    if op == "fc":
        return bits_to_np(t.attr, t.sort)
    if op == "bvc":
        return t.attr
    if op in ("true", "false"):
        return op == "true"
    if op == "not":
        return not a[0]
    if op == "and":
        return all(a)
    if op == "ite":
        return a[1] if a[0] else a[2]
    if op in ("beq", "bveq"):
        return a[0] == a[1]
    if op == "bvult":
        return a[0] < a[1]
    if op == "bvslt":
        n = t.args[0].sort[1]
        return tm.sx(a[0], n) < tm.sx(a[1], n)
    if op == "extract":
        return (a[0] >> t.attr[1]) & ((1 << t.sort[1]) - 1)
    if op == "concat":
        return (a[0] << t.args[1].sort[1]) | a[1]
    if op == "zext":
        return a[0]
    if op == "sext":
        return tm.sx(a[0], t.args[0].sort[1]) & ((1 << t.sort[1]) - 1)
    if op == "b2bv":
        return int(a[0])
    if op == "fadd":
        return a[0] + a[1]
    if op == "fsub":
        return a[0] - a[1]
    if op == "fmul":
        return a[0] * a[1]
    if op == "fdiv":
        return a[0] / a[1]
    if op == "fneg":
        return -a[0]
    if op == "flt":
        return bool(a[0] < a[1])
    if op == "fle":
        return bool(a[0] <= a[1])
    if op == "feq":
        return bool(a[0] == a[1])
    if op == "fident":
        if a[0] != a[0] or a[1] != a[1]:
            return bool(a[0] != a[0] and a[1] != a[1])
        return np_to_bits(a[0]) == np_to_bits(a[1])
    if op == "isnan":
        return bool(a[0] != a[0])
    if op == "signbit":
        return bool(np.signbit(a[0]))
    if op == "f2b":
        return np_to_bits(a[0])
    if op == "b2f":
        return bits_to_np(a[0], t.sort)
    if op == "fcast":
        return np.float32(a[0]) if t.sort == F32 else np.float64(a[0])
    if op in ("s2f", "u2f"):
        v = tm.sx(a[0], t.args[0].sort[1]) if op == "s2f" else a[0]
        return np.float32(v) if t.sort == F32 else np.float64(v)
    if op in ("f2s", "f2u"):
        x = float(a[0])
        if x != x or abs(x) >= 2.0 ** (t.sort[1] - 1):
            raise NoEval("f2i range")
        return int(x) & ((1 << t.sort[1]) - 1)
    if op in tm_bvf:
        return tm._BVF[op[2:]](a[0], a[1], t.sort[1]) & ((1 << t.sort[1]) - 1)
    f32 = t.sort == F32
    ty = np.float32 if f32 else np.float64
    if op == "sqrt":
        return ty(np.sqrt(a[0]))
    if op == "fma":
        return ty(_mf("fma", 3, f32)(*[float(x) for x in a]))
    if op in _M1 or op in _M2:
        return ty(_mf(op, len(a), f32)(*[float(x) for x in a]))
    raise NoEval(op)


tm_bvf = {"bv" + k for k in tm._BVF}


# ---------------------------------------------------------------- intervals
REL = mpf(2) ** -140


class Iv:
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi=None):
        self.lo = mpf(lo)
        self.hi = self.lo if hi is None else mpf(hi)

    def __repr__(self):
        return "[%s, %s]" % (mpmath.nstr(self.lo, 12), mpmath.nstr(self.hi, 12))

    def w(self):
        return self.hi - self.lo


def _out(lo, hi):
    if not (mpmath.isfinite(lo) and mpmath.isfinite(hi)):
        raise NoEval("non-finite interval")
    return Iv(lo - abs(lo) * REL, hi + abs(hi) * REL)


def iadd(a, b):
    return _out(a.lo + b.lo, a.hi + b.hi)


def isub(a, b):
    return _out(a.lo - b.hi, a.hi - b.lo)


def imul(a, b):
    p = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
    return _out(min(p), max(p))


def isq(a):
    if a.lo >= 0:
        return _out(a.lo * a.lo, a.hi * a.hi)
    if a.hi <= 0:
        return _out(a.hi * a.hi, a.lo * a.lo)
    return _out(mpf(0), max(a.lo * a.lo, a.hi * a.hi))


def idiv(a, b):
    if b.lo <= 0 <= b.hi:
        raise NoEval("division by an interval containing zero")
    p = (a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi)
    return _out(min(p), max(p))


def _mono(f, a):
    return _out(f(a.lo), f(a.hi))


def isincos(a, sin):
    two_pi = 2 * mp.pi
    if a.w() >= two_pi:
        return Iv(-1, 1)
    f = mp.sin if sin else mp.cos
    vals = [f(a.lo), f(a.hi)]
    # critical points: sin: pi/2 + k pi ; cos: k pi
    off = mp.pi / 2 if sin else mpf(0)
    k = mp.ceil((a.lo - off) / mp.pi)
    while off + k * mp.pi <= a.hi:
        vals.append(f(off + k * mp.pi))
        k += 1
    lo, hi = min(vals), max(vals)
    e = mpf(2) ** -130
    return Iv(max(lo - e, -1), min(hi + e, 1))


def ifun(op, a):
    x = a[0]
    if op == "sqrt":
        if x.hi < 0:
            raise NoEval("sqrt of negative")
        return _out(mp.sqrt(max(x.lo, 0)), mp.sqrt(x.hi))
    if op in ("sin", "cos"):
        return isincos(x, op == "sin")
    if op == "tan":
        return idiv(isincos(x, True), isincos(x, False))
    if op in ("asin", "atan", "exp", "sinh", "asinh", "tanh"):
        f = {"asin": mp.asin, "atan": mp.atan, "exp": mp.exp, "sinh": mp.sinh, "asinh": mp.asinh, "tanh": mp.tanh}[op]
        if op == "asin":
            if x.hi < -1 or x.lo > 1:
                raise NoEval("asin domain")
            x = Iv(max(x.lo, -1), min(x.hi, 1))
        return _mono(f, x)
    if op == "acos":
        if x.hi < -1 or x.lo > 1:
            raise NoEval("acos domain")
        x = Iv(max(x.lo, -1), min(x.hi, 1))
        return _out(mp.acos(x.hi), mp.acos(x.lo))
    if op in ("log", "log2", "log10"):
        if x.lo <= 0:
            raise NoEval("log domain")
        f = {"log": mp.log, "log2": lambda v: mp.log(v) / mp.log(2), "log10": mp.log10}[op]
        return _mono(f, x)
    if op == "exp2":
        return _mono(lambda v: mp.exp(v * mp.log(2)), x)
    if op == "cbrt":
        return _mono(lambda v: mp.sign(v) * mp.cbrt(abs(v)), x)
    if op == "cosh":
        if x.lo >= 0:
            return _mono(mp.cosh, x)
        if x.hi <= 0:
            return _out(mp.cosh(x.hi), mp.cosh(x.lo))
        return _out(mpf(1), max(mp.cosh(x.lo), mp.cosh(x.hi)))
    if op == "pow":
        y = a[1]
        if y.lo == y.hi and y.lo == 2:
            return isq(x)
        if x.lo <= 0:
            if x.lo == x.hi == 0 and y.lo > 0:
                return Iv(0)
            if x.lo >= 0 and y.lo > 0:
                vals = [mp.power(x.hi, v) for v in (y.lo, y.hi)]
                return _out(mpf(0), max(vals))
            raise NoEval("pow domain")
        vals = [mp.power(u, v) for u in (x.lo, x.hi) for v in (y.lo, y.hi)]
        return _out(min(vals), max(vals))
    if op == "atan2":
        y, xx = a
        if xx.lo <= 0 and y.lo <= 0 <= y.hi:
            raise NoEval("atan2 branch cut")
        vals = [mp.atan2(u, v) for u in (y.lo, y.hi) for v in (xx.lo, xx.hi)]
        return _out(min(vals), max(vals))
    if op in ("floor", "ceil", "trunc", "nearbyint", "round"):
        f = {"floor": mp.floor, "ceil": mp.ceil, "trunc": lambda v: mp.floor(v) if v >= 0 else mp.ceil(v),
             "nearbyint": mp.nint, "round": lambda v: mp.sign(v) * mp.floor(abs(v) + mpf("0.5"))}[op]
        return Iv(f(x.lo), f(x.hi))
    if op == "fabs":
        if x.lo >= 0:
            return x
        if x.hi <= 0:
            return Iv(-x.hi, -x.lo)
        return Iv(0, max(-x.lo, x.hi))
    if op == "fma":
        return iadd(imul(a[0], a[1]), a[2])
    if op == "fmin":
        return Iv(min(a[0].lo, a[1].lo), min(a[0].hi, a[1].hi))
    if op == "fmax":
        return Iv(max(a[0].lo, a[1].lo), max(a[0].hi, a[1].hi))
    if op == "copysign":
        m = ifun("fabs", [x])
        if a[1].lo > 0:
            return m
        if a[1].hi < 0:
            return Iv(-m.hi, -m.lo)
        return Iv(-m.hi, m.hi)
    if op == "fmod" and x.lo == x.hi and a[1].lo == a[1].hi and a[1].lo != 0:
        q = x.lo / a[1].lo
        q = mp.floor(q) if q >= 0 else mp.ceil(q)
        return Iv(x.lo - q * a[1].lo)
    raise NoEval("interval %s" % op)


U24 = mpf(2) ** -24
TINY = mpf(2) ** -149
_EXACT = {"fneg", "fabs", "fmin", "fmax", "floor", "ceil", "trunc", "nearbyint", "round", "copysign", "ite", "fc", "fvar"}


def _widen(iv, op, sort):
    if sort == F64:
        u, t = mpf(2) ** -53, mpf(2) ** -1074
    else:
        u, t = U24, TINY
    if op not in ("fadd", "fsub", "fmul", "fdiv", "sqrt", "fma", "fcast", "s2f", "u2f"):
        u = u * 4            # libm functions: assumed within 4 ulp
        t = t * 4
    m = max(abs(iv.lo), abs(iv.hi))
    if sort == F32 and m > mpf("3.4e38"):
        raise NoEval("overflow")
    # an exactly representable single point stays a point
    if iv.lo == iv.hi and op in ("fadd", "fsub", "fmul", "fdiv", "sqrt", "fcast", "s2f", "u2f"):
        pass
    e = m * u + t
    return Iv(iv.lo - e, iv.hi + e)


def _exact32(v):
    f = float(v)
    if mpf(f) != v:
        return False
    return float(np.float32(f)) == f


def eval_iv(roots, env, rounding, slack=None, bvenv=None):
    """Interval evaluation.  env: leaf name -> Iv (floats) / bool / int.
    Comparison results are True/False/None (unknown).  With rounding=True every
    operation is widened by its rounding error unless it is provably exact.
    slack: widening applied to the difference in comparisons (the property must
    fail by more than this)."""
    memo = {}
    for t in tm.postorder(roots):
        memo[t.id] = _eiv(t, [memo[a.id] for a in t.args], env, rounding, slack)
    return [memo[r.id] for r in roots]


def _need(x):
    if isinstance(x, NoEval):
        raise x
    return x


def _eiv(t, a, env, rounding, slack):
    try:
        return _eiv0(t, a, env, rounding, slack)
    except NoEval as e:
        if t.sort == BOOL:
            return None
        return e
    except (ValueError, ZeroDivisionError, OverflowError, TypeError) as e:
        if t.sort == BOOL:
            return None
        return NoEval(str(e))


def _eiv0(t, a, env, rounding, slack):
    op = t.op
    if op in ("fvar", "bvar", "pvar"):
        if t.attr not in env:
            raise NoEval("unbound %s" % t.attr)
        return _need(env[t.attr])
    if op in ("true", "false"):
        return op == "true"
    if op == "fc":
        v = tm.fval(t)
        if v != v or v in (math.inf, -math.inf):
            return v
        return Iv(v)
    if op == "not":
        return None if a[0] is None else not a[0]
    if op == "and":
        if any(x is False for x in a):
            return False
        return None if any(x is None for x in a) else True
    if op == "beq":
        return None if a[0] is None or a[1] is None else a[0] == a[1]
    if op == "ite":
        if a[0] is True:
            return _need(a[1])
        if a[0] is False:
            return _need(a[2])
        if t.sort == BOOL:
            return a[1] if a[1] == a[2] else None
        x, y = _need(a[1]), _need(a[2])
        if isinstance(x, Iv):
            return Iv(min(x.lo, y.lo), max(x.hi, y.hi))
        if x == y:
            return x
        raise NoEval("ambiguous")
    if op in ("flt", "fle", "feq", "fident"):
        x, y = _need(a[0]), _need(a[1])
        if isinstance(x, float) or isinstance(y, float):
            xv = x if isinstance(x, float) else 0.0
            yv = y if isinstance(y, float) else 0.0
            return {"flt": xv < yv, "fle": xv <= yv, "feq": xv == yv, "fident": xv == yv}[op]
        s = mpf(0) if slack is None else slack
        d = isub(x, y)
        if x.lo == x.hi and y.lo == y.hi and s == 0:
            d = Iv(x.lo - y.lo)
        if op == "flt":
            if d.hi < -s:
                return True
            return False if d.lo >= s and (s > 0 or d.lo >= 0) else None
        if op == "fle":
            if d.hi <= -s:
                return True
            return False if d.lo > s else None
        if d.lo > s or d.hi < -s:
            return False
        return True if (d.lo == d.hi == 0) else None
    if op == "isnan":
        x = a[0]
        if isinstance(x, float):
            return x != x
        _need(x)
        return False
    if op == "signbit":
        x = _need(a[0])
        if x.hi < 0:
            return True
        return False if x.lo > 0 else None
    if op == "fcast":
        x = _need(a[0])
        return _widen(x, op, t.sort) if rounding and t.sort == F32 else x
    if op in ("s2f", "u2f"):
        v = _need(a[0])
        if op == "s2f":
            v = tm.sx(v, t.args[0].sort[1])
        r = Iv(v)
        return _widen(r, op, t.sort) if rounding and abs(v) > 1 << 24 else r
    if t.sort not in (F32, F64):
        # integer part: concrete only
        return _ei(t, [_need(x) for x in a], {k: v for k, v in env.items() if not isinstance(v, (Iv, NoEval))})
    a = [_need(x) for x in a]
    if any(isinstance(x, float) for x in a):
        raise NoEval("infinity in arithmetic")
    pts = all(x.lo == x.hi for x in a)
    if op in ("fadd", "fsub", "fmul"):
        if pts:
            v = {"fadd": a[0].lo + a[1].lo, "fsub": a[0].lo - a[1].lo, "fmul": a[0].lo * a[1].lo}[op]
            # 160-bit mantissa: products/sums of floats of similar magnitude are exact
            if _exact32(v):
                return Iv(v)
        if op == "fmul" and t.args[0] is t.args[1]:
            r = isq(a[0])
        else:
            r = {"fadd": iadd, "fsub": isub, "fmul": imul}[op](a[0], a[1])
    elif op == "fdiv":
        if pts and a[1].lo != 0:
            v = a[0].lo / a[1].lo
            if _exact32(v) and v * a[1].lo == a[0].lo:
                return Iv(v)
        r = idiv(a[0], a[1])
    elif op == "fneg":
        return Iv(-a[0].hi, -a[0].lo)
    else:
        r = ifun(op, a)
        if op == "sqrt" and pts and a[0].lo >= 0:
            v = mp.sqrt(a[0].lo)
            if _exact32(v) and v * v == a[0].lo:
                return Iv(v)
    if rounding and op not in _EXACT:
        return _widen(r, op, t.sort)
    return r
