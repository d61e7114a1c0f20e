"""Rounding error of everything built from sums, products, quotients and square roots."""
import itertools
from zsym.core import near
from .lib import *  # noqa: F401,F403
from .geom import L, S, TY
from .mats import M, V, mat
from .quats import *  # noqa: F401,F403


def absm(A):
    return from_fn(A.n, lambda r, c: fabs(A(r, c)))


def perm(A):
    """Leibniz sum without signs"""
    out = None
    for p in itertools.permutations(range(A.n)):
        t = A(0, p[0])
        for x in range(1, A.n):
            t = t * A(x, p[x])
        out = t if out is None else out + t
    return out


def av(xs):
    return [fabs(x) for x in xs]


def s_near(n, k=2, extra=0, lo=0.2, hi=4):
    """k nearly equal (or opposite) vectors of n components, then `extra` numbers"""
    def f(r):
        a = [r.choice((1, -1)) * r.uniform(lo, hi) for _ in range(n)]
        out = list(a)
        d = 2.0 ** -r.randint(1, 20)
        for _ in range(k - 1):
            sg = r.choice((1, 1, -1))
            out += [sg * x * (1 + r.uniform(-1, 1) * d) for x in a]
        return out + [r.uniform(-2, 2) for _ in range(extra)], []
    return f


def A_(name, code, spec, nf, nr, **kw):
    """spec(inputs) -> list of (label, exact value, magnitude, k)"""
    ob = Ob(name, code, lambda i, o: [(l, near(o.r[j], e, m, k)) for j, (l, e, m, k) in enumerate(spec(i))],
            nf=nf, nr=nr, mode="real", err=True, domain=False, **kw)
    ob.spec = spec
    return ob


def comps(es, ms, k, p="component"):
    return [("%s[%d] within %d units of its terms" % (p, j, k), e, m, k) for j, (e, m) in enumerate(zip(es, ms))]


def rounding_accuracy():
    out = []
    for n in (1, 2, 3, 4):
        T = TY[n]
        a, b = (lambda i, n=n: i.a[:n]), (lambda i, n=n: i.a[n:2 * n])
        two = "%s, %s" % (L(n), L(n, n))
        df = lambda i, a=a, b=b: vsub(a(i), b(i))
        pairs = dict(nf=2 * n, sampler=s_near(n))
        out.append(A_("dot_%s" % T, "r[0] = zcm::dot(%s);" % two,
                      lambda i, n=n, a=a, b=b: [("error relative to the products", dot(a(i), b(i)), dot(av(a(i)), av(b(i))), 2 * n + 2)], nr=1, **pairs))
        out.append(A_("distance2_%s" % T, "r[0] = zcm::distance2(%s);" % two,
                      lambda i, n=n, df=df: [("relative error", norm2(df(i)), norm2(df(i)), 2 * n + 6)], nr=1, **pairs))
        out.append(A_("distance_%s" % T, "r[0] = zcm::distance(%s);" % two,
                      lambda i, n=n, df=df: [("relative error", sqrt(norm2(df(i))), sqrt(norm2(df(i))), 2 * n + 6)] if n > 1 else
                      [("relative error", fabs(df(i)[0]), fabs(df(i)[0]), 4)], nr=1, **pairs))
        out.append(A_("length2_%s" % T, "r[0] = zcm::length2(%s);" % L(n),
                      lambda i, n=n: [("relative error", norm2(i.a), norm2(i.a), 2 * n + 2)], nf=n, nr=1, sampler=s_near(n, 1)))
        out.append(A_("length_%s" % T, "r[0] = zcm::length(%s);" % L(n),
                      lambda i, n=n: [("relative error", sqrt(norm2(i.a)) if n > 1 else fabs(i.a[0]), sqrt(norm2(i.a)) if n > 1 else fabs(i.a[0]), 2 * n + 2)],
                      nf=n, nr=1, sampler=s_near(n, 1)))
        out.append(A_("reflect_%s" % T, S(n, "zcm::reflect(%s)" % two),
                      lambda i, n=n, a=a, b=b: comps(vsub(a(i), vscale(b(i), 2 * dot(b(i), a(i)))),
                                                     vadd(av(a(i)), vscale(av(b(i)), 2 * dot(av(b(i)), av(a(i))))), 2 * n + 8),
                      nr=n, **pairs))
        for kind, tt in (("scalar", lambda i, j, n=n: i.a[2 * n]), ("vector", lambda i, j, n=n: i.a[2 * n + j])):
            if n == 1 and kind == "vector":
                continue
            m = 1 if kind == "scalar" else n
            rg = lambda i, n=n, m=m: [And(x >= 0, x <= 1) for x in i.a[2 * n:2 * n + m]]
            base = s_near(n)
            smp = lambda r, n=n, m=m, base=base: (base(r)[0] + [r.random() for _ in range(m)], [])
            out.append(A_("mix_%s_%s" % (kind, T), S(n, "zcm::mix(%s, %s)" % (two, L(m, 2 * n))),
                          lambda i, a=a, b=b, tt=tt: comps([x * (1 - tt(i, j)) + y * tt(i, j) for j, (x, y) in enumerate(zip(a(i), b(i)))],
                                                           [fabs(x) + fabs(y) for x, y in zip(a(i), b(i))], 12),
                          nf=2 * n + m, nr=n, pre=rg, sampler=smp, bounded=["a%d" % j for j in range(2 * n, 2 * n + m)]))
        if n > 1:
            out.append(A_("normalize_%s" % T, "st(r, zcm::normalize(%s));" % L(n),
                          lambda i, n=n: comps([x / sqrt(norm2(i.a)) for x in i.a], [fabs(x) / sqrt(norm2(i.a)) for x in i.a], 2 * n + 6),
                          nf=n, nr=n, sampler=s_near(n, 1), pre=lambda i: [norm2(i.a) > 0]))
            out.append(A_("comp_%s" % T, "auto v = ld<%s>(a); r[0] = zcm::compAdd(v); r[1] = zcm::compMul(v);" % T,
                          lambda i, n=n: [("compAdd", sum(i.a[1:], i.a[0]), sum(av(i.a[1:]), fabs(i.a[0])), 2 * n),
                                          ("compMul", prod(i.a), prod(av(i.a)), 2 * n)], nf=n, nr=2,
                          sampler=lambda r, n=n: (s_near(1, n)(r)[0], [])))
    c2 = lambda p, q: [p[1] * q[2] + p[2] * q[1], p[2] * q[0] + p[0] * q[2], p[0] * q[1] + p[1] * q[0]]
    out.append(A_("cross", "st(r, zcm::cross(ld<vec3>(a), ld<vec3>(a + 3)));",
                  lambda i: comps(cross(i.a[:3], i.a[3:]), c2(av(i.a[:3]), av(i.a[3:])), 6), nf=6, nr=3, sampler=s_near(3)))
    # matrices
    for n in (2, 3, 4):
        k = n * n
        T = "mat%d" % n
        A = lambda i, n=n: mat(n, i.a)
        B = lambda i, n=n, k=k: mat(n, i.a, k)
        out.append(A_("%s_mul" % T, "st(r, %s * %s);" % (M(n), M(n, k)),
                      lambda i, n=n, A=A, B=B: comps(mmul(A(i), B(i)).v, mmul(absm(A(i)), absm(B(i))).v, 2 * n + 2, "entry"), nf=2 * k, nr=k, sampler=s_near(k)))
        out.append(A_("%s_mul_assign" % T, "auto m = %s; m *= %s; st(r, m);" % (M(n), M(n, k)),
                      lambda i, n=n, A=A, B=B: comps(mmul(A(i), B(i)).v, mmul(absm(A(i)), absm(B(i))).v, 2 * n + 2, "entry"), nf=2 * k, nr=k, sampler=s_near(k)))
        out.append(A_("%s_mul_vec" % T, "st(r, %s * %s); st(r + %d, %s * %s);" % (M(n), V(n, k), n, V(n, k), M(n)),
                      lambda i, n=n, A=A, k=k: comps(mvec(A(i), i.a[k:]), mvec(absm(A(i)), av(i.a[k:])), 2 * n + 2) +
                      comps([dot(i.a[k:], A(i).col(c)) for c in range(n)], [dot(av(i.a[k:]), av(A(i).col(c))) for c in range(n)], 2 * n + 2, "row product"),
                      nf=k + n, nr=2 * n, sampler=s_near(n, n + 1)))
        out.append(A_("%s_determinant" % T, "r[0] = zcm::determinant(%s);" % M(n),
                      lambda i, n=n, A=A: [("error relative to the Leibniz terms", det(A(i)), perm(absm(A(i))), 4 * n + 4)], nf=k, nr=1, sampler=s_near(n, n)))
        aminor = lambda A, r, c: fabs(minor(A, r, c)) if A.n == 2 else perm(absm(from_fn(
            A.n - 1, lambda x, y, A=A, r=r, c=c: A([z for z in range(A.n) if z != r][x], [z for z in range(A.n) if z != c][y]))))
        cof = lambda i, r, c, A=A: minor(A(i), r, c) if (r + c) % 2 == 0 else -minor(A(i), r, c)
        out.append(A_("%s_adjugate" % T, "st(r, zcm::adjugate(%s)); st(r + %d, zcm::adjugateTranspose(%s));" % (M(n), k, M(n)),
                      lambda i, n=n, cof=cof, aminor=aminor, A=A:
                      comps([cof(i, c, r) for c in range(n) for r in range(n)], [aminor(A(i), c, r) for c in range(n) for r in range(n)], 4 * n, "adjugate") +
                      comps([cof(i, r, c) for c in range(n) for r in range(n)], [aminor(A(i), r, c) for c in range(n) for r in range(n)], 4 * n, "cofactor"),
                      nf=k, nr=2 * k, sampler=s_near(n, n)))
    # transforms of a matrix
    A4 = lambda i: mat(4, i.a)
    tr = lambda i, f: [dot([f(A4(i)(r, c)) for c in range(3)], [f(x) for x in i.a[16:19]]) + f(A4(i)(r, 3)) for r in range(4)]
    out.append(A_("translate", "st(r, zcm::translate(%s, ld<vec3>(a + 16)));" % M(4),
                  lambda i: comps(list(i.a[:12]) + tr(i, lambda x: x), av(i.a[:12]) + tr(i, fabs), 10, "entry"), nf=19, nr=16, sampler=s_near(1, 19)))
    # quaternions
    qa = lambda p, q: [p[3] * q[0] + p[0] * q[3] + p[1] * q[2] + p[2] * q[1], p[3] * q[1] + p[1] * q[3] + p[2] * q[0] + p[0] * q[2],
                       p[3] * q[2] + p[2] * q[3] + p[0] * q[1] + p[1] * q[0], p[3] * q[3] + p[0] * q[0] + p[1] * q[1] + p[2] * q[2]]
    P, Q = (lambda i: i.a[:4]), (lambda i: i.a[4:8])
    out.append(A_("quat_mul", "st(r, ld<quat>(a) * ld<quat>(a + 4));",
                  lambda i: comps(qmul(P(i), Q(i)), [sum(av(P(i))[1:], av(P(i))[0]) * sum(av(Q(i))[1:], av(Q(i))[0])] * 4, 24), nf=8, nr=4, sampler=s_near(4)))
    out.append(A_("quat_dot", "r[0] = zcm::dot(ld<quat>(a), ld<quat>(a + 4)); r[1] = zcm::length2(ld<quat>(a)); r[2] = zcm::length(ld<quat>(a));",
                  lambda i: [("dot", dot(P(i), Q(i)), dot(av(P(i)), av(Q(i))), 10), ("length2", norm2(P(i)), norm2(P(i)), 10),
                             ("length", sqrt(norm2(P(i))), sqrt(norm2(P(i))), 10)], nf=8, nr=3, sampler=s_near(4)))
    out.append(A_("quat_inverse", "st(r, zcm::inverse(ld<quat>(a)));",
                  lambda i: comps([x / norm2(i.a) for x in qconj(i.a)], [fabs(x) / norm2(i.a) for x in i.a], 14), nf=4, nr=4,
                  sampler=s_near(4, 1), pre=lambda i: [norm2(i.a) > 0]))
    out.append(A_("quat_normalize", "st(r, zcm::normalize(ld<quat>(a)));",
                  lambda i: comps([x / sqrt(norm2(i.a)) for x in i.a], [fabs(x) / sqrt(norm2(i.a)) for x in i.a], 14), nf=4, nr=4,
                  sampler=s_near(4, 1), pre=lambda i: [norm2(i.a) > 0]))
    b01 = lambda i, n=4: [And(x >= -1, x <= 1) for x in i.a[:n]]
    bq = ["a%d" % j for j in range(4)]
    vsum = lambda i: [fabs(i.a[4]) + fabs(i.a[5]) + fabs(i.a[6])] * 3
    s_q = lambda k: (lambda r: (s_unit(r, 4) + s_small(r, k), []))
    out.append(A_("quat_rotate", "st(r, ld<quat>(a) * ld<vec3>(a + 4));",
                  lambda i: comps(mvec(qmat(P(i)), i.a[4:7]), vsum(i), 48), nf=7, nr=3, pre=b01, bounded=bq, sampler=s_q(3)))
    out.append(A_("mat3_cast", "st(r, zcm::mat3_cast(ld<quat>(a)));",
                  lambda i: comps(qmat(P(i)).v, [con(1)] * 9, 16, "entry"), nf=4, nr=9, pre=b01, bounded=bq, sampler=s_q(0)))
    rg = lambda i: [And(i.a[8] >= 0, i.a[8] <= 1)]
    out.append(A_("quat_lerp", "st(r, zcm::lerp(ld<quat>(a), ld<quat>(a + 4), a[8]));",
                  lambda i: comps([x * (1 - i.a[8]) + y * i.a[8] for x, y in zip(P(i), Q(i))], [fabs(x) + fabs(y) for x, y in zip(P(i), Q(i))], 12),
                  nf=9, nr=4, pre=rg, bounded=["a8"], sampler=lambda r: (s_near(4)(r)[0] + [r.random()], [])))
    out.append(A_("angleAxis", "st(r, zcm::angleAxis(a[0], ld<vec3>(a + 1)));",
                  lambda i: comps([x * sin(i.a[0] * 0.5) for x in i.a[1:]] + [cos(i.a[0] * 0.5)],
                                  [fabs(x * sin(i.a[0] * 0.5)) for x in i.a[1:]] + [fabs(cos(i.a[0] * 0.5))], 6),
                  nf=4, nr=4, sampler=lambda r: ([r.uniform(-3, 3)] + s_unit(r, 3), [])))
    # transforms
    out.append(A_("scale", "st(r, zcm::scale(%s, ld<vec3>(a + 16)));" % M(4),
                  lambda i: comps([x * i.a[16 + c // 4] for c, x in enumerate(i.a[:12])], [fabs(x * i.a[16 + c // 4]) for c, x in enumerate(i.a[:12])], 4, "entry"),
                  nf=19, nr=16, sampler=s_near(1, 19)))

    def rodrigues(i):
        x, y, z = [v / sqrt(norm2(i.a[17:20])) for v in i.a[17:20]]
        c, s = cos(i.a[16]), sin(i.a[16])
        t = 1 - c
        R = [[c + t * x * x, t * x * y - s * z, t * x * z + s * y], [t * x * y + s * z, c + t * y * y, t * y * z - s * x],
             [t * x * z - s * y, t * y * z + s * x, c + t * z * z]]
        return [dot([A4(i)(r, k) for k in range(3)], [R[k][c_] for k in range(3)]) for c_ in range(3) for r in range(4)]
    out.append(A_("rotate", "st(r, zcm::rotate(%s, a[16], ld<vec3>(a + 17)));" % M(4),
                  lambda i: comps(rodrigues(i), [fabs(A4(i)(r, 0)) + fabs(A4(i)(r, 1)) + fabs(A4(i)(r, 2)) for _ in range(3) for r in range(4)], 64, "entry"),
                  nf=20, nr=16, pre=lambda i: [norm2(i.a[17:20]) > 0], sampler=lambda r: (s_near(1, 16)(r)[0] + [r.uniform(-3, 3)] + s_unit(r, 3), [])))
    # projections: quotients of sums and differences of the bounds
    def s_box(r):
        o = []
        for _ in range(3):
            l = r.choice((1, -1)) * r.uniform(.1, 8)
            o += [l, l * (1 + r.choice((1, -1)) * 2.0 ** -r.uniform(0, 16)) if r.random() < .7 else r.uniform(-8, 8)]
        return o, []
    ne = lambda i: [i.a[2 * j].ne(i.a[2 * j + 1]) for j in range(len(i.a) // 2)]
    rel = lambda l, x: (l, x, fabs(x), 8)
    for nm, sg, no in (("LH_ZO", 1, 0), ("RH_ZO", -1, 0), ("LH_NO", 1, 1), ("RH_NO", -1, 1)):
        def spec(i, sg=sg, no=no):
            l, r, b, t, n, f = i.a
            w = [con(2) / (r - l), con(2) / (t - b), con(sg * (1 + no)) / (f - n), -(r + l) / (r - l), -(t + b) / (t - b), (-(f + n) if no else -n) / (f - n)]
            return [rel("entry %s within 8 units" % e, x) for e, x in zip(("00", "11", "22", "30", "31", "32"), w)]
        out.append(A_("ortho%s" % nm, "auto m = zcm::ortho%s(a[0], a[1], a[2], a[3], a[4], a[5]); r[0] = m[0][0]; r[1] = m[1][1]; r[2] = m[2][2]; r[3] = m[3][0]; r[4] = m[3][1]; r[5] = m[3][2];" % nm,
                      spec, nf=6, nr=6, pre=ne, sampler=s_box))

        def spec(i, sg=sg, no=no):
            fov, asp, n, f = i.a
            w = [((f + n) if no else f) * sg / (f - n), (f * n) * con(-1 - no) / (f - n)]
            return [rel("entry %s within 8 units" % e, x) for e, x in zip(("22", "32"), w)]
        out.append(A_("perspective%s" % nm, "auto m = zcm::perspective%s(a[0], a[1], a[2], a[3]); r[0] = m[2][2]; r[1] = m[3][2];" % nm,
                      spec, nf=4, nr=2, pre=lambda i: [i.a[1] >= 0.25, i.a[0] >= 0.25, i.a[0] <= 3, i.a[2] > 0, i.a[3] > 0, i.a[2].ne(i.a[3])],
                      sampler=lambda r: ([r.uniform(.3, 2.5), r.uniform(.5, 2)] + (lambda n: [n, n * (1 + 2.0 ** r.uniform(-16, 8))])(r.uniform(.1, 2)), [])))
    return out


def prod(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r * x
    return r
