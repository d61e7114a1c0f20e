"""NaN operands of the arithmetic functions reach the result; infinite vectors have infinite length."""
from .lib import *  # noqa: F401,F403
from .geom import L, S, TY
from .mats import M, V, mat


def nan(xs):
    return any_(x.isnan() for x in xs)


def inf(x):
    return And(Not(x.finite()), Not(x.isnan()))


def reach(name, code, uses, nf, nr, **kw):
    """uses(inputs) -> per output, the inputs it depends on"""
    alone = kw.pop("alone", False)      # next to an infinity, hypot and its like may return infinity
    g = (lambda u: And(*[nan(u)] + [Not(inf(x)) for x in u])) if alone else nan
    return Ob(name, code, lambda i, o: [("a NaN operand makes result %d NaN" % j, Imp(g(u), o.r[j].isnan())) for j, u in enumerate(uses(i))],
              nf=nf, nr=nr, sampler=s_nan(nf, kw.pop("base", None)), **kw)


def s_nan(n, base=None):
    def f(r):
        v = base(r)[0] if base else [r.uniform(-3, 3) for _ in range(n)]
        if r.random() < .8:
            v[r.randrange(n)] = float("nan")
        if r.random() < .3:
            v[r.randrange(n)] = r.choice([0.0, float("inf"), -float("inf"), 1.0])
        return v, []
    return f


def nan_propagation():
    out = []
    for n in (1, 2, 3, 4):
        T = TY[n]
        two = "%s, %s" % (L(n), L(n, n))
        al = lambda k: (lambda i, k=k: [i.a] * k)
        out.append(reach("metric_%s" % T, "r[0] = zcm::distance(%s);" % two, al(1), 2 * n, 1, alone=True))
        out.append(reach("dot_%s" % T, "r[0] = zcm::dot(%s); r[1] = zcm::distance2(%s);" % (two, two), al(2), 2 * n, 2))
        out.append(reach("length_%s" % T, "r[0] = zcm::length(%s);" % L(n), al(1), n, 1, alone=True))
        out.append(reach("length2_%s" % T, "r[0] = zcm::length2(%s);" % L(n), al(1), n, 1))
        out.append(Ob("infinite_length_%s" % T, "r[0] = zcm::length(%s); r[1] = zcm::length2(%s);" % (L(n), L(n)),
                      lambda i, o: [("%s of a vector with an infinite component" % w, And(inf(x), x > 0)) for w, x in zip(("length", "length2"), o.r)],
                      nf=n, nr=2, pre=lambda i: [Not(nan(i.a)), any_(inf(x) for x in i.a)],
                      sampler=lambda r, n=n: ((lambda v: v[:r.randrange(n)] + [r.choice((1, -1)) * float("inf")] + v)([r.uniform(-3, 3) for _ in range(n)])[:n], [])))
        out.append(reach("reflect_%s" % T, S(n, "zcm::reflect(%s)" % two), al(n), 2 * n, n))
        if n > 1:
            out.append(reach("normalize_%s" % T, "st(r, zcm::normalize(%s));" % L(n), al(n), n, n))
            out.append(reach("comp_%s" % T, "auto v = ld<%s>(a); r[0] = zcm::compAdd(v); r[1] = zcm::compMul(v);" % T, al(2), n, 2))
        for m in sorted({1, n}):
            out.append(reach("mix_%s_%d" % (T, m), S(n, "zcm::mix(%s, %s)" % (two, L(m, 2 * n))),
                             lambda i, n=n, m=m: [[i.a[j], i.a[n + j], i.a[2 * n + (j if m > 1 else 0)]] for j in range(n)], 2 * n + m, n))
            if n > 1 or m == 1:
                out.append(reach("mod_%s_%d" % (T, m), S(n, "zcm::mod(%s, %s)" % (L(n), L(m, n))),
                                 lambda i, n=n, m=m: [[i.a[j], i.a[n + (j if m > 1 else 0)]] for j in range(n)], n + m, n))
        out.append(reach("fract_%s" % T, S(n, "zcm::fract(%s)" % L(n)), lambda i, n=n: [[x] for x in i.a], n, n))
    out.append(reach("cross", "st(r, zcm::cross(ld<vec3>(a), ld<vec3>(a + 3)));",
                     lambda i: [[i.a[q] for q in range(6) if q % 3 != j] for j in range(3)], 6, 3))
    for n in (2, 3, 4):
        k = n * n
        T = "mat%d" % n
        A = lambda i, n=n: mat(n, i.a)
        B = lambda i, n=n, k=k: mat(n, i.a, k)
        out.append(reach("%s_mul" % T, "st(r, %s * %s);" % (M(n), M(n, k)),
                         lambda i, n=n, A=A, B=B: [A(i).row(r) + B(i).col(c) for c in range(n) for r in range(n)], 2 * k, k))
        out.append(reach("%s_mul_assign" % T, "auto m = %s; m *= %s; st(r, m);" % (M(n), M(n, k)),
                         lambda i, n=n, A=A, B=B: [A(i).row(r) + B(i).col(c) for c in range(n) for r in range(n)], 2 * k, k))
        out.append(reach("%s_vec" % T, "st(r, %s * %s); st(r + %d, %s * %s);" % (M(n), V(n, k), n, V(n, k), M(n)),
                         lambda i, n=n, A=A, k=k: [A(i).row(r) + i.a[k:] for r in range(n)] + [A(i).col(c) + i.a[k:] for c in range(n)], k + n, 2 * n))
        out.append(reach("%s_determinant" % T, "r[0] = zcm::determinant(%s);" % M(n), lambda i: [i.a], k, 1))
        out.append(reach("%s_inverse" % T, "st(r, zcm::inverse(%s));" % M(n), lambda i, k=k: [i.a] * k, k, k))
    q = "ld<quat>(a)"
    out.append(reach("quat_mul", "st(r, %s * ld<quat>(a + 4)); r[4] = zcm::dot(%s, ld<quat>(a + 4));" % (q, q), lambda i: [i.a] * 5, 8, 5))
    out.append(reach("quat_unary", "st(r, zcm::normalize(%s)); st(r + 4, zcm::inverse(%s)); r[8] = zcm::length(%s); r[9] = zcm::length2(%s);" % (q, q, q, q),
                     lambda i: [i.a] * 10, 4, 10))
    out.append(reach("quat_rotate", "st(r, %s * ld<vec3>(a + 4));" % q, lambda i: [i.a] * 3, 7, 3))
    out.append(reach("quat_lerp", "st(r, zcm::lerp(%s, ld<quat>(a + 4), a[8]));" % q, lambda i: [[i.a[j], i.a[4 + j], i.a[8]] for j in range(4)], 9, 4,
                     pre=lambda i: [And(i.a[8] >= 0, i.a[8] <= 1)], base=lambda r: ([r.uniform(-1, 1) for _ in range(8)] + [r.random()], [])))
    A4 = lambda i: mat(4, i.a)
    out.append(reach("translate", "st(r, zcm::translate(%s, ld<vec3>(a + 16)));" % M(4),
                     lambda i: [[x] for x in i.a[:12]] + [A4(i).row(r) + i.a[16:19] for r in range(4)], 19, 16))
    out.append(reach("scale", "st(r, zcm::scale(%s, ld<vec3>(a + 16)));" % M(4),
                     lambda i: [[x, i.a[16 + c // 4]] for c, x in enumerate(i.a[:12])] + [[x] for x in i.a[12:16]], 19, 16))
    for nm in ("LH_ZO", "RH_ZO", "LH_NO", "RH_NO"):
        out.append(reach("ortho%s" % nm, "auto m = zcm::ortho%s(a[0], a[1], a[2], a[3], a[4], a[5]); r[0] = m[0][0]; r[1] = m[1][1]; r[2] = m[2][2]; r[3] = m[3][0]; r[4] = m[3][1]; r[5] = m[3][2];" % nm,
                         lambda i: [i.a[0:2], i.a[2:4], i.a[4:6]] * 2, 6, 6))
    return out
