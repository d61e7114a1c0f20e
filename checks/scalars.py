"""common.hpp, exponential.hpp, angle_and_trigonometry.hpp, component_wise.hpp,
color_space.hpp, constants.hpp."""
import math
import struct
from fractions import Fraction
from .lib import *


def lift(name, call, spec, nargs=1, dims=(1, 2, 3, 4), tag=None, mkargs=None, **kw):
    """float and vecN overloads of a componentwise function; spec(args...) -> E"""
    out = []
    for n in dims:
        V = "float" if n == 1 else "vec%d" % n
        ops = ["a[%d]" % k if n == 1 else "ld<vec%d>(a+%d)" % (n, k * n) for k in range(nargs)]
        code = ("r[0] = %s;" if n == 1 else "st(r, %s);") % (call % tuple(ops))
        out.append(Ob("%s_%s" % (tag or name, V), code,
                      lambda i, o, n=n: same(o.r, [spec(*[i.a[k * n + j] for k in range(nargs)]) for j in range(n)]),
                      nf=nargs * n, nr=n, **kw))
    return out


def pfun(name, x):
    return E(tm.fun(name, x.t))


# ------------------------------------------------------------------ rounding
def rounding_functions():
    out = []
    for f, g in (("floor", "floor"), ("ceil", "ceil"), ("trunc", "trunc"), ("round", "round"), ("roundEven", "nearbyint"), ("abs", "fabs")):
        out += lift(f, "zcm::%s(%%s)" % f, lambda x, g=g: pfun(g, x))
    out += lift("fract", "zcm::fract(%s)", lambda x: x - pfun("floor", x))
    out += lift("fma", "zcm::fma(%s, %s, %s)", lambda a, b, c: E(tm.fun("fma", a.t, b.t, c.t)), nargs=3)
    X = lambda i: i.a[0]
    big = 8388608.0
    out.append(Ob("rounding_laws", "r[0]=zcm::floor(a[0]); r[1]=zcm::ceil(a[0]); r[2]=zcm::trunc(a[0]); r[3]=zcm::round(a[0]); r[4]=zcm::roundEven(a[0]); r[5]=zcm::fract(a[0]);",
                  lambda i, o: [
                      ("floor(x) <= x < floor(x)+1", And(o.r[0] <= X(i), Imp(fabs(X(i)) < big, X(i) < o.r[0] + 1))),
                      ("ceil(x)-1 < x <= ceil(x)", And(o.r[1] >= X(i), Imp(fabs(X(i)) < big, X(i) > o.r[1] - 1))),
                      ("trunc rounds toward zero", And(fabs(o.r[2]) <= fabs(X(i)), Or(o.r[2].eq(o.r[0]), o.r[2].eq(o.r[1])))),
                      ("round is a nearest integer", And(Or(o.r[3].eq(o.r[0]), o.r[3].eq(o.r[1])), fabs(X(i) - o.r[3]) <= 0.5)),
                      ("roundEven is a nearest integer", And(Or(o.r[4].eq(o.r[0]), o.r[4].eq(o.r[1])), fabs(X(i) - o.r[4]) <= 0.5)),
                      ("fract is in [0,1]", And(o.r[5] >= 0, o.r[5] <= 1))],
                  nf=1, nr=6, pre=lambda i: i.a[0].finite()))
    for f in ("abs",):
        for n in (1, 2, 3, 4):
            V = "int" if n == 1 else "ivec%d" % n
            code = "k[0] = zcm::abs(n[0]);" if n == 1 else "sti(k, zcm::abs(ld<%s>(n)));" % V
            out.append(Ob("abs_%s" % V, code,
                          lambda i, o, n=n: isame(o.k, [ite(x < 0, -x, x) for x in i.n]), ni=n, nk=n,
                          pre=lambda i: [x.ne(-0x80000000) for x in i.n]))
    return out


# ------------------------------------------------------------------ min max clamp sign
def gmax(x, y): return ite(x < y, y, x)
def gmin(x, y): return ite(y < x, y, x)


def fsign(x): return ite(x.eq(0), con(0), ite(x > 0, con(1), con(-1)))
def fsnz(x): return ite(x >= 0, con(1), con(-1))


def ilift(name, spec, nargs):
    out = []
    for n in (1, 2, 3, 4):
        V = "int" if n == 1 else "ivec%d" % n
        ops = ", ".join("(int)n[%d]" % k if n == 1 else "ld<%s>(n+%d)" % (V, k * n) for k in range(nargs))
        code = ("k[0] = zcm::%s(%s);" if n == 1 else "sti(k, zcm::%s(%s));") % (name, ops)
        out.append(Ob("%s_%s" % (name, V), code,
                      lambda i, o, n=n: isame(o.k, [spec(*[i.n[k * n + j] for k in range(nargs)]) for j in range(n)]),
                      ni=nargs * n, nk=n, ints=[0, 1, -1, 5, -0x80000000, 0x7fffffff, 100, -100]))
    return out


def min_max_clamp_sign():
    out = []
    out += lift("max", "zcm::max(%s, %s)", gmax, nargs=2)
    out += lift("min", "zcm::min(%s, %s)", gmin, nargs=2)
    out += lift("clamp", "zcm::clamp(%s, %s, %s)", lambda x, lo, hi: gmin(gmax(x, lo), hi), nargs=3)
    nn = lambda i: [Not(x.isnan()) for x in i.a]
    out += lift("sign", "zcm::sign(%s)", fsign, pre=nn)
    out += lift("signNotZero", "zcm::signNotZero(%s)", fsnz, pre=nn)
    out += ilift("max", gmax, 2) + ilift("min", gmin, 2)
    out += ilift("clamp", lambda x, lo, hi: gmin(gmax(x, lo), hi), 3)
    out += ilift("sign", lambda x: ite(x.eq(0), I(0), ite(x > 0, I(1), I(-1 & 0xffffffff))), 1)
    out += ilift("signNotZero", lambda x: ite(x >= 0, I(1), I(-1 & 0xffffffff)), 1)
    out.append(Ob("clamp_range", "r[0] = zcm::clamp(a[0], a[1], a[2]);",
                  lambda i, o: [("lo <= clamp <= hi", And(o.r[0] >= i.a[1], o.r[0] <= i.a[2])),
                                ("inside values are kept", Imp(And(i.a[0] >= i.a[1], i.a[0] <= i.a[2]), o.r[0].eq(i.a[0])))],
                  nf=3, nr=1, pre=lambda i: [i.a[1] <= i.a[2], Not(i.a[0].isnan())]))
    out.append(Ob("iclamp_range", "k[0] = zcm::clamp((int)n[0], (int)n[1], (int)n[2]);",
                  lambda i, o: [("lo <= clamp <= hi", And(o.k[0] >= i.n[1].sx(64), o.k[0] <= i.n[2].sx(64))),
                                ("inside values are kept", Imp(And(i.n[0] >= i.n[1], i.n[0] <= i.n[2]), o.k[0].eq(i.n[0].sx(64))))],
                  ni=3, nk=1, pre=lambda i: [i.n[1] <= i.n[2]]))
    out.append(Ob("nan_second_operand", "r[0] = zcm::max(a[0], a[1]); r[1] = zcm::min(a[0], a[1]);",
                  lambda i, o: [("max(x, NaN) is x", o.r[0].same(i.a[0])), ("min(x, NaN) is x", o.r[1].same(i.a[0]))],
                  nf=2, nr=2, pre=lambda i: [i.a[1].isnan()]))
    return out


# ------------------------------------------------------------------ mod
def glsl_mod(x, y): return x - y * pfun("floor", x / y)


def mod_function():
    out = lift("mod", "zcm::mod(%s, %s)", glsl_mod, nargs=2)
    for n in (2, 3, 4):
        out.append(Ob("mod_vec%d_s" % n, "st(r, zcm::mod(ld<vec%d>(a), a[%d]));" % (n, n),
                      lambda i, o, n=n: same(o.r, [glsl_mod(i.a[j], i.a[n]) for j in range(n)]), nf=n + 1, nr=n))
    # exact arithmetic: x - mod(x,y) is an integer multiple of y and mod has the sign of y
    out.append(Ob("mod_law", "r[0] = zcm::mod(a[0], a[1]); r[1] = zcm::floor(a[0] / a[1]);",
                  lambda i, o: [("x == y*floor(x/y) + mod(x,y)", i.a[0].eq(i.a[1] * o.r[1] + o.r[0])),
                                ("0 <= mod < y for positive y", Imp(i.a[1] > 0, And(o.r[0] >= 0, o.r[0] < i.a[1]))),
                                ("y < mod <= 0 for negative y", Imp(i.a[1] < 0, And(o.r[0] <= 0, o.r[0] > i.a[1])))],
                  nf=2, nr=2, mode="real", pre=lambda i: [i.a[1].ne(0)], refute=False))
    return out


# ------------------------------------------------------------------ mix step smoothstep
def mix_step_smoothstep():
    out = []
    for n in (1, 2, 3, 4):
        V = "float" if n == 1 else "vec%d" % n
        L = (lambda k, n=n: "a[%d]" % k) if n == 1 else (lambda k, n=n, V=V: "ld<%s>(a+%d)" % (V, k))
        S = "r[0] = %s;" if n == 1 else "st(r, %s);"
        lin = lambda i, o, n=n: eqs(o.r, [i.a[j] * (con(1) - i.a[2 * n + j]) + i.a[n + j] * i.a[2 * n + j] for j in range(n)])
        out.append(Ob("mix_%s" % V, S % ("zcm::mix(%s, %s, %s)" % (L(0), L(n), L(2 * n))), lin, nf=3 * n, nr=n, mode="real"))
        out.append(Ob("mix_%s_ends" % V, S % ("zcm::mix(%s, %s, %s)" % (L(0), L(n), "0.0f" if n == 1 else V + "(0.0f)")),
                      lambda i, o, n=n: eqs(o.r, i.a[:n]), nf=2 * n, nr=n,
                      pre=lambda i: [And(x.finite(), fabs(x) < 1e38) for x in i.a]))
        if n > 1:
            out.append(Ob("mix_%s_s" % V, "st(r, zcm::mix(%s, %s, a[%d]));" % (L(0), L(n), 2 * n),
                          lambda i, o, n=n: eqs(o.r, [i.a[j] * (con(1) - i.a[2 * n]) + i.a[n + j] * i.a[2 * n] for j in range(n)]),
                          nf=2 * n + 1, nr=n, mode="real"))
        bsel = "bool(n[0] & 1)" if n == 1 else "ldb<bvec%d>(n)" % n
        out.append(Ob("mix_%s_bool" % V, S % ("zcm::mix(%s, %s, %s)" % (L(0), L(n), bsel)),
                      lambda i, o, n=n: same(o.r, [ite(i.n[j].low_bit(), i.a[n + j], i.a[j]) for j in range(n)]), nf=2 * n, ni=n, nr=n))
        out.append(Ob("step_%s" % V, S % ("zcm::step(%s, %s)" % (L(0), L(n))),
                      lambda i, o, n=n: same(o.r, [ite(i.a[n + j] < i.a[j], con(0), con(1)) for j in range(n)]), nf=2 * n, nr=n))

        def smooth(e0, e1, x):
            t = (x - e0) / (e1 - e0)
            t = ite(t < 0, con(0), ite(t > 1, con(1), t))
            return t * t * (con(3) - con(2) * t)
        out.append(Ob("smoothstep_%s" % V, S % ("zcm::smoothstep(%s, %s, %s)" % (L(0), L(n), L(2 * n))),
                      lambda i, o, n=n, smooth=smooth: eqs(o.r, [smooth(i.a[j], i.a[n + j], i.a[2 * n + j]) for j in range(n)]),
                      nf=3 * n, nr=n, mode="real", pre=lambda i, n=n: [Or(i.a[j] < i.a[n + j], i.a[j] > i.a[n + j]) for j in range(n)],
                      sampler=lambda r, n=n: (lambda e: (e + [x + r.choice((1, 1, -1)) * r.uniform(.5, 3) for x in e] + [x + r.uniform(-2, 5) for x in e], []))(s_small(r, n))))
        # the end points are met
        for e, val in ((0, 0), (1, 1)):
            out.append(Ob("smoothstep_%s_edge%d" % (V, e), S % ("zcm::smoothstep(%s, %s, %s)" % (L(0), L(n), L(e * n))),
                          lambda i, o, n=n, val=val, e=e: [("edge%d maps to %d [%d]" % (e, val, j), o.r[j].eq(val)) for j in range(n)],
                          nf=2 * n, nr=n, mode="real", pre=lambda i, n=n: [i.a[j] < i.a[n + j] for j in range(n)],
                          sampler=lambda r, n=n: (lambda e: (e + [x + abs(r.uniform(.5, 3)) for x in e], []))(s_small(r, n))))
    out.append(Ob("smoothstep_range", "r[0] = zcm::smoothstep(a[0], a[1], a[2]);",
                  lambda i, o: [("in [0,1]", And(o.r[0] >= 0, o.r[0] <= 1))], nf=3, nr=1, mode="real",
                  pre=lambda i: [i.a[0] < i.a[1]]))
    return out


# ------------------------------------------------------------------ reductions
def component_reductions():
    out = []
    for n in (2, 3, 4):
        def fold(f, xs):
            r = xs[0]
            for x in xs[1:]:
                r = f(r, x)
            return r
        V = "vec%d" % n
        out.append(Ob("comp_%s" % V, "auto v = ld<%s>(a); r[0] = zcm::compAdd(v); r[1] = zcm::compMul(v);" % V,
                      lambda i, o, fold=fold: [("compAdd is the sum", o.r[0].eq(fold(lambda x, y: x + y, i.a))),
                                               ("compMul is the product", o.r[1].eq(fold(lambda x, y: x * y, i.a)))], nf=n, nr=2, mode="real"))
        pairs = lambda a, p, q: any_(And(p(x), q(y)) for x in a for y in a if x is not y)
        zero, inf = (lambda x: x.eq(0)), (lambda x: And(Not(x.finite()), Not(x.isnan())))

        def odd(a):
            r = a[0].bits() < 0
            for x in a[1:]:
                r = Not(Iff(r, x.bits() < 0))
            return r
        out.append(Ob("comp_special_%s" % V, "auto v = ld<%s>(a); r[0] = zcm::compAdd(v); r[1] = zcm::compMul(v);" % V,
                      lambda i, o, pairs=pairs, odd=odd, zero=zero, inf=inf: [
                          ("compAdd of a NaN is NaN", Imp(any_(x.isnan() for x in i.a), o.r[0].isnan())),
                          ("compMul of a NaN is NaN", Imp(any_(x.isnan() for x in i.a), o.r[1].isnan())),
                          ("compMul of zero and infinity is NaN", Imp(pairs(i.a, zero, inf), o.r[1].isnan())),
                          ("the sign of compMul is the product of the signs", Imp(Not(o.r[1].isnan()), Iff(o.r[1].bits() < 0, odd(i.a))))],
                      nf=n, nr=2))
        out.append(Ob("compmm_%s" % V, "auto v = ld<%s>(a); r[0] = zcm::compMin(v); r[1] = zcm::compMax(v);" % V,
                      lambda i, o: [("compMin is a lower bound", all_(o.r[0] <= x for x in i.a)),
                                    ("compMin is attained", any_(o.r[0].same(x) for x in i.a)),
                                    ("compMax is an upper bound", all_(o.r[1] >= x for x in i.a)),
                                    ("compMax is attained", any_(o.r[1].same(x) for x in i.a))],
                      nf=n, nr=2, pre=lambda i: [Not(x.isnan()) for x in i.a]))
        W = "ivec%d" % n
        out.append(Ob("comp_%s" % W, "auto v = ld<%s>(n); k[0] = zcm::compAdd(v); k[1] = zcm::compMul(v); k[2] = zcm::compMin(v); k[3] = zcm::compMax(v);" % W,
                      lambda i, o, fold=fold: [
                          ("compAdd is the wrapped sum", o.k[0].eq(fold(lambda x, y: x + y, i.n).sx(64))),
                          ("compMul is the wrapped product", o.k[1].eq(fold(lambda x, y: x * y, i.n).sx(64))),
                          ("compMin is the least component", And(all_(o.k[2] <= x.sx(64) for x in i.n), any_(o.k[2].eq(x.sx(64)) for x in i.n))),
                          ("compMax is the greatest component", And(all_(o.k[3] >= x.sx(64) for x in i.n), any_(o.k[3].eq(x.sx(64)) for x in i.n)))],
                      ni=n, nk=4))
    return out


# ------------------------------------------------------------------ exponential, trigonometric
def uf(name):
    return lambda *a: fn(name, *a)


def quat_lift(name, spec, pow_=False):
    """quaternion overload acts componentwise"""
    if pow_:
        return Ob("%s_quat" % name, "st(r, zcm::%s(ld<quat>(a), a[4]));" % name,
                  lambda i, o: same(o.r, [spec(x, i.a[4]) for x in i.a[:4]]), nf=5, nr=4)
    return Ob("%s_quat" % name, "st(r, zcm::%s(ld<quat>(a)));" % name,
              lambda i, o: same(o.r, [spec(x) for x in i.a]), nf=4, nr=4)


def exponential_functions():
    out = []
    for f in ("exp", "exp2", "log", "log2", "sqrt", "cbrt"):
        out += lift(f, "zcm::%s(%%s)" % f, uf(f))
        out.append(quat_lift(f, uf(f)))
    out += lift("pow", "zcm::pow(%s, %s)", uf("pow"), nargs=2)
    out.append(quat_lift("pow", uf("pow"), True))
    out += lift("inversesqrt", "zcm::inversesqrt(%s)", lambda x: con(1) / sqrt(x))
    out.append(quat_lift("inversesqrt", lambda x: con(1) / sqrt(x)))
    out.append(Ob("inversesqrt_law", "r[0] = zcm::inversesqrt(a[0]);",
                  lambda i, o: [("inversesqrt(x)^2 * x == 1", (o.r[0] * o.r[0] * i.a[0]).eq(1)), ("positive", o.r[0] > 0)],
                  nf=1, nr=1, mode="real", pre=lambda i: [i.a[0] > 0]))
    out.append(Ob("sqrt_law", "r[0] = zcm::sqrt(a[0]);",
                  lambda i, o: [("sqrt(x)^2 == x", (o.r[0] * o.r[0]).eq(i.a[0])), ("non-negative", o.r[0] >= 0)],
                  nf=1, nr=1, mode="real", pre=lambda i: [i.a[0] >= 0]))
    return out


def trigonometric_functions():
    out = []
    for f in ("cos", "sin", "tan", "acos", "asin", "cosh", "sinh", "tanh", "acosh", "asinh", "atanh"):
        out += lift(f, "zcm::%s(%%s)" % f, uf(f))
    out += lift("atan", "zcm::atan(%s)", uf("atan"))
    out += lift("atan2", "zcm::atan(%s, %s)", uf("atan2"), nargs=2)
    # the conversion factor is a float; 2^-22 relative slack admits any correctly rounded form
    pi = Fraction("3.14159265358979323846264338327950288")
    for f, c in (("radians", pi / 180), ("degrees", 180 / pi)):
        for n in (1, 2, 3, 4):
            code = "r[0] = zcm::%s(a[0]);" % f if n == 1 else "st(r, zcm::%s(ld<vec%d>(a)));" % (f, n)
            k = float(c)
            out.append(Ob("%s_%d" % (f, n), code,
                          lambda i, o, k=k, n=n: [("component[%d] is within 2^-22 of the exact conversion" % j,
                                                   fabs(o.r[j] - i.a[j] * k) <= fabs(i.a[j]) * (k * 2.0 ** -22)) for j in range(n)],
                          nf=n, nr=n, mode="real", slack=1e-6))
    return out


# ------------------------------------------------------------------ colour space
def srgb_enc(c, inv):
    """IEC 61966-2-1 transfer with exponent inv"""
    return ite(c < 0.0031308, c * 12.92, fn("pow", c, inv) * 1.055 - 0.055)


def color_space():
    out = []
    f32 = lambda x: struct.unpack("f", struct.pack("f", x))[0]

    def clamp01(x):
        return gmin(gmax(x, con(0)), con(1))
    # gamma variants: bit-exact up to the documented formula
    gs = lambda r, n: ([r.uniform(0, 1) for _ in range(n)] + [r.choice([2.2, 2.4, 1.8, 2.0])], [])
    ok = lambda i: [x.finite() for x in i.a] + [i.a[-1] > 0]
    for n in (3, 4):
        V = "vec%d" % n
        out.append(Ob("linear_to_srgb_gamma_%s" % V, "st(r, zcm::convertLinearToSRGB(ld<%s>(a), a[%d]));" % (V, n),
                      lambda i, o, n=n: [("component[%d]" % j, o.r[j].same(
                          ite(clamp01(i.a[j]) < 0.0031308, clamp01(i.a[j]) * 12.92,
                              fn("pow", clamp01(i.a[j]), con(1) / i.a[n]) * 1.055 - 0.055))) for j in range(3)] +
                      ([("alpha is unmodified", o.r[3].same(i.a[3]))] if n == 4 else []),
                      nf=n + 1, nr=n, pre=ok, sampler=lambda r, n=n: gs(r, n)))
        out.append(Ob("srgb_to_linear_gamma_%s" % V, "st(r, zcm::convertSRGBToLinear(ld<%s>(a), a[%d]));" % (V, n),
                      lambda i, o, n=n: [("component[%d]" % j, o.r[j].same(
                          ite(i.a[j] <= 0.04045, i.a[j] * (1 / 12.92),
                              fn("pow", (i.a[j] + 0.055) * (1 / 1.055), i.a[n])))) for j in range(3)] +
                      ([("alpha is unmodified", o.r[3].same(i.a[3]))] if n == 4 else []),
                      nf=n + 1, nr=n, pre=ok, sampler=lambda r, n=n: gs(r, n)))
        out.append(Ob("srgb_to_linear_%s" % V, "st(r, zcm::convertSRGBToLinear(ld<%s>(a)));" % V,
                      lambda i, o, n=n: [("component[%d]" % j, o.r[j].same(
                          ite(i.a[j] <= 0.04045, i.a[j] * (1 / 12.92),
                              fn("pow", (i.a[j] + 0.055) * (1 / 1.055), con(2.4))))) for j in range(3)] +
                      ([("alpha is unmodified", o.r[3].same(i.a[3]))] if n == 4 else []),
                      nf=n, nr=n, pre=lambda i: [x.finite() for x in i.a], sampler=lambda r, n=n: ([r.uniform(0, 1) for _ in range(n)], [])))
        # the default encoder: sqrt-polynomial fit, judged through t with t^8 = c
        out.append(Ob("linear_to_srgb_%s" % V, "st(r, zcm::convertLinearToSRGB(ld<%s>(a)));" % V,
                      lambda i, o, n=n: [("component[%d] depends only on its own channel" % j, o.r[j].eq(
                          sqrt(i.a[j]) * 0.662002687 + sqrt(sqrt(i.a[j])) * f32(0.684122060) - sqrt(sqrt(sqrt(i.a[j]))) * f32(0.323583601) - i.a[j] * f32(0.0225411470)))
                          for j in range(3)] + ([("alpha is unmodified", o.r[3].eq(i.a[3]))] if n == 4 else []),
                      nf=n, nr=n, mode="real", pre=lambda i: [And(x >= 0, x <= 1) for x in i.a],
                      sampler=lambda r, n=n: ([r.uniform(0.01, 1) for _ in range(n)], [])))
    return out


# ------------------------------------------------------------------ constants
def constants():
    from decimal import Decimal
    pi = "3.14159265358979323846264338327950288419716939937510"
    import mpmath as mp
    mp.mp.prec = 200
    P = mp.pi
    vals = dict(zero=mp.mpf(0), one=mp.mpf(1), pi=P, two_pi=2 * P, root_pi=mp.sqrt(P), half_pi=P / 2, three_over_two_pi=3 * P / 2,
                quarter_pi=P / 4, one_over_pi=1 / P, one_over_two_pi=1 / (2 * P), two_over_pi=2 / P, four_over_pi=4 / P,
                two_over_root_pi=2 / mp.sqrt(P), one_over_root_two=1 / mp.sqrt(2), root_half_pi=mp.sqrt(P / 2),
                root_two_pi=mp.sqrt(2 * P), root_ln_four=mp.sqrt(mp.log(4)), e=mp.e, euler=mp.euler, root_two=mp.sqrt(2),
                root_three=mp.sqrt(3), root_five=mp.sqrt(5), ln_two=mp.log(2), ln_ten=mp.log(10), ln_ln_two=mp.log(mp.log(2)),
                third=mp.mpf(1) / 3, two_thirds=mp.mpf(2) / 3, golden_ratio=(1 + mp.sqrt(5)) / 2, epsilon=mp.mpf(2) ** -23)
    out = []
    for name, v in vals.items():
        # nearest binary32 of the exact value
        m, e = mp.frexp(v)
        q = int(mp.nint(m * 2 ** 24))
        f = float(q) * 2.0 ** (int(e) - 24)
        out.append(Ob("const_%s" % name, "r[0] = zcm::%s();" % name,
                      lambda i, o, f=f, name=name: [("%s is the binary32 nearest the exact value" % name, o.r[0].same(con(f)))], nr=1))
    return out
