"""Geometric functions (geometric.hpp)."""
from .lib import *  # noqa: F401,F403

TY = {1: "float", 2: "vec2", 3: "vec3", 4: "vec4"}


def L(n, off=0):
    return "a[%d]" % off if n == 1 else "ld<%s>(a + %d)" % (TY[n], off)


def S(n, e):
    return "r[0] = %s;" % e if n == 1 else "st(r, %s);" % e


def sgnz(x):
    return ite(x >= 0, con(1), con(-1))


def nonzero(v):
    return norm2(v) > 0


def units(*ks):
    """sampler: concatenated unit vectors of the given sizes, then `extra` numbers"""
    return lambda r, ks=ks: (sum([s_unit(r, k) if k > 1 else [r.choice([-1.0, 1.0])] for k in ks], []), [])


def geometric_metric():
    out = []
    for n in (1, 2, 3, 4):
        V = TY[n]
        A, B = (lambda i: i.a[:n]), None
        sp = lambda n: (lambda i: (i.a[:n], i.a[n:2 * n]))
        q = sp(n)
        out.append(Ob("dot_%s" % V, "r[0] = zcm::dot(%s, %s);" % (L(n), L(n, n)),
                      lambda i, o, q=q: [("sum of the componentwise products", o.r[0].eq(dot(*q(i))))], nf=2 * n, nr=1, mode="real"))
        out.append(Ob("length2_%s" % V, "r[0] = zcm::length2(%s);" % L(n),
                      lambda i, o: [("dot of the vector with itself", o.r[0].eq(norm2(i.a)))], nf=n, nr=1, mode="real"))
        out.append(Ob("length_%s" % V, "r[0] = zcm::length(%s);" % L(n),
                      lambda i, o: [("non-negative", o.r[0] >= 0), ("its square is length2", (o.r[0] * o.r[0]).eq(norm2(i.a)))],
                      nf=n, nr=1, mode="real"))
        out.append(Ob("distance_%s" % V, "r[0] = zcm::distance(%s, %s);" % (L(n), L(n, n)),
                      lambda i, o, q=q: [("non-negative", o.r[0] >= 0),
                                         ("its square is the squared length of the difference", (o.r[0] * o.r[0]).eq(norm2(vsub(*q(i)))))],
                      nf=2 * n, nr=1, mode="real"))
        out.append(Ob("distance2_%s" % V, "r[0] = zcm::distance2(%s, %s);" % (L(n), L(n, n)),
                      lambda i, o, q=q: [("squared length of the difference", o.r[0].eq(norm2(vsub(*q(i)))))], nf=2 * n, nr=1, mode="real"))
        out.append(Ob("distance_symmetric_%s" % V, "r[0] = zcm::distance(%s, %s); r[1] = zcm::distance(%s, %s);" % (L(n), L(n, n), L(n, n), L(n)),
                      lambda i, o: [("distance(a,b) == distance(b,a)", o.r[0].eq(o.r[1]))], nf=2 * n, nr=2, mode="real"))
        out.append(Ob("distance_zero_%s" % V, "r[0] = zcm::distance(%s, %s);" % (L(n), L(n)),
                      lambda i, o: [("a point is at distance 0 from itself", o.r[0].eq(0))], nf=n, nr=1,
                      pre=lambda i: [x.finite() for x in i.a]))
        out.append(Ob("length_nonneg_%s" % V, "r[0] = zcm::length(%s);" % L(n),
                      lambda i, o: [("never negative in binary32", Not(o.r[0] < 0)),
                                    ("NaN only when a component is NaN", Imp(And(*[Not(x.isnan()) for x in i.a]), Not(o.r[0].isnan())))],
                      nf=n, nr=1, timeout=60, tier="thorough"))
        if n > 1:
            out.append(Ob("normalize_%s" % V, "st(r, zcm::normalize(%s));" % L(n),
                          lambda i, o, n=n: [("unit length", norm2(o.r).eq(1)), ("same side", dot(o.r, i.a) > 0)] +
                          [("component[%d] is the input over its length" % j, (o.r[j] * sqrt(norm2(i.a))).eq(i.a[j])) for j in range(n)],
                          nf=n, nr=n, mode="real", pre=lambda i: [nonzero(i.a)]))
    Q = "ld<quat>(a)"
    out.append(Ob("dot_quat", "r[0] = zcm::dot(ld<quat>(a), ld<quat>(a + 4));",
                  lambda i, o: [("sum of the componentwise products", o.r[0].eq(dot(i.a[:4], i.a[4:])))], nf=8, nr=1, mode="real"))
    out.append(Ob("length2_quat", "r[0] = zcm::length2(%s);" % Q, lambda i, o: [("dot with itself", o.r[0].eq(norm2(i.a)))], nf=4, nr=1, mode="real"))
    out.append(Ob("length_quat", "r[0] = zcm::length(%s);" % Q,
                  lambda i, o: [("non-negative", o.r[0] >= 0), ("its square is length2", (o.r[0] * o.r[0]).eq(norm2(i.a)))], nf=4, nr=1, mode="real"))
    out.append(Ob("normalize_quat", "st(r, zcm::normalize(%s));" % Q,
                  lambda i, o: [("unit length", norm2(o.r).eq(1)), ("same side", dot(o.r, i.a) > 0)] +
                  [("component[%d] is the input over its length" % j, (o.r[j] * sqrt(norm2(i.a))).eq(i.a[j])) for j in range(4)],
                  nf=4, nr=4, mode="real", pre=lambda i: [nonzero(i.a)]))
    out.append(Ob("cross", "st(r, zcm::cross(ld<vec3>(a), ld<vec3>(a + 3)));",
                  lambda i, o: eqs(o.r, cross(i.a[:3], i.a[3:])) +
                  [("orthogonal to the first operand", dot(o.r, i.a[:3]).eq(0)), ("orthogonal to the second operand", dot(o.r, i.a[3:]).eq(0)),
                   ("Lagrange identity", norm2(o.r).eq(norm2(i.a[:3]) * norm2(i.a[3:]) - dot(i.a[:3], i.a[3:]) * dot(i.a[:3], i.a[3:])))],
                  nf=6, nr=3, mode="real"))
    out.append(Ob("cross_anticommutes", "st(r, zcm::cross(ld<vec3>(a), ld<vec3>(a + 3))); st(r + 3, zcm::cross(ld<vec3>(a + 3), ld<vec3>(a)));",
                  lambda i, o: [("cross(a,b) == -cross(b,a) [%d]" % j, o.r[j].eq(-o.r[3 + j])) for j in range(3)], nf=6, nr=6, mode="real"))
    return out


def reflect_refract_faceforward():
    out = []
    for n in (1, 2, 3, 4):
        V = TY[n]
        I_ = lambda i, n=n: i.a[:n]
        N_ = lambda i, n=n: i.a[n:2 * n]
        R_ = lambda i, n=n: i.a[2 * n:3 * n]
        out.append(Ob("reflect_%s" % V, S(n, "zcm::reflect(%s, %s)" % (L(n), L(n, n))),
                      lambda i, o, I_=I_, N_=N_: eqs(o.r, vsub(I_(i), vscale(N_(i), 2 * dot(N_(i), I_(i)))), "I - 2 dot(N,I) N"), nf=2 * n, nr=n, mode="real"))
        su = lambda r, n=n: (s_small(r, n) + units(n)(r)[0], [])
        out.append(Ob("reflect_law_%s" % V, S(n, "zcm::reflect(%s, %s)" % (L(n), L(n, n))),
                      lambda i, o, I_=I_, N_=N_: [("length preserved for a unit normal", norm2(o.r).eq(norm2(I_(i)))),
                                                 ("normal component reversed for a unit normal", dot(o.r, N_(i)).eq(-dot(I_(i), N_(i))))],
                      nf=2 * n, nr=n, mode="real", pre=lambda i, N_=N_: [unit(N_(i))], approx=n > 1, sampler=su))
        eta = lambda i, n=n: i.a[2 * n]
        k = lambda i, I_=I_, N_=N_, eta=eta: 1 - eta(i) * eta(i) * (1 - dot(N_(i), I_(i)) * dot(N_(i), I_(i)))
        se = lambda r, n=n: (units(n, n)(r)[0] + [r.uniform(0.2, 3)], [])
        se2 = lambda r, n=n: (s_small(r, n) + s_small(r, n) + [r.uniform(-2, 3)], [])
        call = S(n, "zcm::refract(%s, %s, a[%d])" % (L(n), L(n, n), 2 * n))
        # written against t = refract(...) without the square root: (t - eta I)/-N = c with (c - eta d)^2 = k, c >= eta d
        out.append(Ob("refract_%s" % V, call,
                      lambda i, o, I_=I_, N_=N_, eta=eta, k=k, n=n: [
                          ("component[%d] follows the GLSL formula" % j,
                           Or(k(i) < 0, o.r[j].eq(eta(i) * I_(i)[j] - (eta(i) * dot(N_(i), I_(i)) + sqrt(k(i))) * N_(i)[j]))) for j in range(n)] + [
                          ("component[%d] is 0 on total internal reflection" % j, Imp(k(i) < 0, o.r[j].eq(0))) for j in range(n)],
                      nf=2 * n + 1, nr=n, mode="real", sampler=se2))
        out.append(Ob("refract_law_%s" % V, call,
                      lambda i, o, I_=I_, N_=N_, eta=eta, k=k: [
                          ("unit length for unit inputs", Imp(k(i) >= 0, norm2(o.r).eq(1))),
                          ("Snell: the tangential part is scaled by eta",
                           Imp(k(i) >= 0, norm2(vsub(o.r, vscale(N_(i), dot(o.r, N_(i))))).eq(eta(i) * eta(i) * (1 - dot(N_(i), I_(i)) * dot(N_(i), I_(i))))))],
                      nf=2 * n + 1, nr=n, mode="real", pre=lambda i, I_=I_, N_=N_: [unit(I_(i)), unit(N_(i))], approx=n > 1, sampler=se))
        ff = S(n, "zcm::faceforward(%s, %s, %s)" % (L(n), L(n, n), L(n, 2 * n)))
        out.append(Ob("faceforward_%s" % V, ff,
                      lambda i, o, I_=I_, N_=N_, R_=R_, n=n: [
                          ("component[%d]" % j, o.r[j].eq(ite(dot(R_(i), N_(i)) < 0, I_(i)[j], -I_(i)[j]))) for j in range(n)],
                      nf=3 * n, nr=n, mode="real"))
    return out


def orthogonal_vectors():
    out = []
    for f, pre, smp in (("orthogonal", lambda i: [nonzero(i.a)], lambda r: (s_small(r, 3), [])),
                        ("orthogonal_branchless", lambda i: [unit(i.a)], units(3))):
        ap = f != "orthogonal"
        out.append(Ob(f, "st(r, zcm::%s(ld<vec3>(a)));" % f,
                      lambda i, o, ap=ap: [("perpendicular to the input", dot(o.r, i.a).eq(0)), ("not the zero vector", Not(And(*[x.eq(0) for x in o.r])))]
                      # a root in floats is nearly always missed by a little, and normalised to noise
                      + ([("squared length at least 1/16", norm2(o.r) >= 0.0625)] if ap else []),
                      nf=3, nr=3, mode="real", pre=pre, sampler=smp, approx=ap, slack=1e-5 if ap else None))
    out.append(Ob("orthogonal_binary32", "st(r, zcm::orthogonal(ld<vec3>(a)));",
                  lambda i, o: [("never the zero vector for a non-zero finite input", Not(And(*[x.eq(0) for x in o.r])))],
                  nf=3, nr=3, pre=lambda i: [x.finite() for x in i.a] + [Or(*[x.ne(0) for x in i.a])]))
    return out


def octahedral_round_trip():
    out = []
    def edge(r):
        v = s_unit(r, 3)
        k = r.random()
        if k < 0.15:
            return [0.0, 0.0, r.choice([1.0, -1.0])]
        if k < 0.4:
            j = r.randrange(3)
            v[j] = 0.0
            l = math.sqrt(sum(x * x for x in v))
            v = [x / l for x in v]
        return v
    smp = lambda r: (edge(r), [])
    s1 = lambda i: fabs(i.a[0]) + fabs(i.a[1]) + fabs(i.a[2])
    # encode works on the direction: any non-zero vector
    out.append(Ob("encode", "st(r, zcm::encode_octahedral(ld<vec3>(a)));",
                  lambda i, o: [("output[%d] in [-1,1]" % j, And(o.r[j] >= -1, o.r[j] <= 1)) for j in range(2)] + [
                      ("upper hemisphere projects onto the inner diamond [%d]" % j, Imp(i.a[2] > 0, (o.r[j] * s1(i)).eq(i.a[j]))) for j in range(2)] + [
                      ("lower hemisphere folds over the diagonals [%d]" % j,
                       Imp(i.a[2] <= 0, (o.r[j] * s1(i)).eq((s1(i) - fabs(i.a[1 - j])) * sgnz(i.a[j])))) for j in range(2)],
                  nf=3, nr=2, mode="real", pre=lambda i: [Or(*[x.ne(0) for x in i.a])], sampler=smp))
    out.append(Ob("decode", "st(r, zcm::decode_octahedral(ld<vec2>(a)));",
                  lambda i, o: [("unit length", norm2(o.r).eq(1)),
                                ("z has the sign of 1-|x|-|y|", Iff(o.r[2] > 0, (fabs(i.a[0]) + fabs(i.a[1])) < 1))],
                  nf=2, nr=3, mode="real", pre=lambda i: [And(x >= -1, x <= 1) for x in i.a]))
    out.append(Ob("round_trip", "st(r, zcm::decode_octahedral(zcm::encode_octahedral(ld<vec3>(a))));",
                  lambda i, o: [("decode(encode(v)) is a positive multiple of v: parallel [%d]" % j, cross(o.r, i.a)[j].eq(0)) for j in range(3)] +
                  [("decode(encode(v)) points the same way", dot(o.r, i.a) > 0), ("unit length", norm2(o.r).eq(1))],
                  nf=3, nr=3, mode="real", pre=lambda i: [Or(*[x.ne(0) for x in i.a])], sampler=smp, timeout=60))
    return out
