"""Ordinary operands give finite results inside the mathematical range, roundings included."""
from .lib import *  # noqa: F401,F403
from .geom import L, S, TY
from .mats import M, V, det, mat

EPS = 2.0 ** -20
HALF_PI = 1.57079637          # the float above pi/2


def inside(o, lo, hi, p="result"):
    return [("%s %d is a number in [%.7g, %.7g]" % (p, j, lo, hi), And(x >= lo, x <= hi)) for j, x in enumerate(o)]


def finite(o, p="result"):
    return [("%s %d is finite" % (p, j), x.finite()) for j, x in enumerate(o)]


def R(name, code, claim, nf, nr, mag=16.0, pre=None, sampler=None, **kw):
    """mag: every input lies in [-mag, mag]"""
    def f(i):
        return [And(x >= -mag, x <= mag) for x in i.a] + (list(pre(i)) if pre else [])
    return Ob(name, code, lambda i, o: claim(i, o), nf=nf, nr=nr, pre=f, rnd=mag, sampler=sampler, **kw)


def near1(xs, eps=EPS):
    n = norm2(xs)
    return [And(n >= 1 - eps, n <= 1 + eps)]


def s_unitish(*ks):
    """4, 3: a vector of that many components, unit up to a few roundings (sometimes along an axis); 't': in [0, 1]"""
    def f(r):
        out = []
        for k in ks:
            if k == "t":
                out.append(r.choice([0.0, 1.0, 0.5, r.random()]))
            elif isinstance(k, str):
                out.append(r.uniform(-3, 3))
            elif r.random() < .6:
                v = s_unit(r, k)
                if r.random() < .5 and out[-k:] and len(out) >= k:
                    v = [r.choice((1,)) * x for x in out[-k:]]
                    if r.random() < .5:
                        v = [-x for x in v]
                m = 1 + r.choice([0, 0, 1, -1, 2, -2, 3]) * 2.0 ** -24
                out += [x * m for x in v]
            else:
                v = [0.0] * k
                j = r.randrange(k)
                v[j] = r.choice((1, -1)) * (1 + r.choice([0, 1, 1, 2, -1, -2]) * 2.0 ** -23)
                if r.random() < .5:
                    v[(j + 1) % k] = r.choice((1, -1)) * 2.0 ** -r.randint(11, 26)
                out += v
        return out, []
    return f


def s_mag(n, lo=-20, hi=20):
    def f(r):
        return [r.choice((0.0, 1, 1, 1, -1, -1, -1)) * 2.0 ** r.randint(lo, hi) * r.uniform(1, 2) if r.random() < .7 else r.uniform(-2, 2) for _ in range(n)], []
    return f


def ordinary_ranges():
    out = []
    big = 2.0 ** 40
    q, q4 = "ld<quat>(a)", "ld<quat>(a + 4)"
    for n in (1, 2, 3, 4):
        T = TY[n]
        two = "%s, %s" % (L(n), L(n, n))
        edges = lambda i, n=n: [i.a[n + j] - i.a[j] >= 2.0 ** -40 for j in range(n)]
        out.append(R("smoothstep_%s" % T, S(n, "zcm::smoothstep(%s, %s, %s)" % (L(n), L(n, n), L(n, 2 * n))), lambda i, o: inside(o.r, -EPS, 1 + EPS), 3 * n, n, big, edges,
                     lambda r, n=n: ((lambda e: e + [x + 2.0 ** -r.randint(0, 20) for x in e] + [x + r.uniform(0, 1) * 2.0 ** -r.randint(0, 20) for x in e])([r.uniform(-2, 2) for _ in range(n)]), [])))
        out.append(R("fract_%s" % T, S(n, "zcm::fract(%s)" % L(n)), lambda i, o: inside(o.r, 0, 1), n, n, big, None, s_mag(n)))
        t01 = lambda i, n=n: [And(i.a[2 * n] >= 0, i.a[2 * n] <= 1)]
        out.append(R("mix_%s" % T, S(n, "zcm::mix(%s, a[%d])" % (two, 2 * n)),
                     lambda i, o: inside(o.r, -16.00001, 16.00001), 2 * n + 1, n, 16.0, t01, lambda r, n=n: ([r.choice((16.0, -16.0, r.uniform(-16, 16))) for _ in range(2 * n)] + [r.random()], [])))
        out.append(R("length_%s" % T, "r[0] = zcm::length(%s); r[1] = zcm::length2(%s); r[2] = zcm::distance(%s); r[3] = zcm::distance2(%s);" % (L(n), L(n), two, two),
                     lambda i, o: [("%s is finite and not negative" % w, And(o.r[j] >= 0, o.r[j].finite())) for j, w in enumerate(("length", "length2", "distance", "distance2"))],
                     2 * n, 4, big, None, s_mag(2 * n)))
        out.append(R("reflect_%s" % T, S(n, "zcm::reflect(%s)" % two),
                     lambda i, o: finite(o.r), 2 * n, n, 2.0 ** 30, None, s_mag(2 * n)))
        out.append(R("mod_%s" % T, S(n, "zcm::mod(%s)" % two), lambda i, o: finite(o.r), 2 * n, n, big, lambda i, n=n: [fabs(x) >= 2.0 ** -40 for x in i.a[n:]], s_mag(2 * n)))
        if n > 1:
            out.append(R("normalize_%s" % T, "st(r, zcm::normalize(%s));" % L(n), lambda i, o: inside(o.r, -1 - EPS, 1 + EPS, "component"), n, n, big,
                         lambda i: [norm2(i.a) >= 2.0 ** -80], s_mag(n, -30)))
        out.append(R("refract_%s" % T, S(n, "zcm::refract(%s, a[%d])" % (two, 2 * n)), lambda i, o: finite(o.r), 2 * n + 1, n, 4.0, None,
                     lambda r, n=n: (([r.choice((1, -1)) * (1 + r.choice((0, 1, 2)) * 2.0 ** -23) for _ in range(2)] if n == 1 else
                                      s_unitish(n, n)(r)[0]) + [r.choice([1.0, 1.5, 2 / 3, 1 + 2.0 ** -22, r.uniform(.3, 3)])], [])))
    out.append(R("cross", "st(r, zcm::cross(ld<vec3>(a), ld<vec3>(a + 3))); st(r + 3, zcm::orthogonal(ld<vec3>(a))); st(r + 6, zcm::orthogonal_branchless(ld<vec3>(a)));",
                 lambda i, o: finite(o.r), 6, 9, big, None, s_mag(6)))
    out.append(R("encode_octahedral", "st(r, zcm::encode_octahedral(ld<vec3>(a)));", lambda i, o: inside(o.r, -1 - EPS, 1 + EPS, "coordinate"), 3, 2, big,
                 lambda i: [any_(fabs(x) >= 2.0 ** -40 for x in i.a)], s_mag(3)))
    sq = lambda i: [And(x >= -1, x <= 1) for x in i.a]
    out.append(R("decode_octahedral", "st(r, zcm::decode_octahedral(ld<vec2>(a)));", lambda i, o: inside(o.r, -1 - EPS, 1 + EPS, "component"), 2, 3, 1.0, sq,
                 lambda r: ([r.choice([0.0, 1.0, -1.0, .5, -.5, r.uniform(-1, 1), 2.0 ** -24, 1 - 2.0 ** -24]) for _ in range(2)], [])))
    # colours
    col = lambda i: [And(x >= 0, x <= 1) for x in i.a[:3]] + [And(i.a[3] >= 0.25, i.a[3] <= 8)]
    s_col = lambda r: ([r.choice([0.0, 1.0, 1 - 2.0 ** -24, .0031308, .04045, r.random(), r.random() * .01]) for _ in range(3)] + [r.choice([2.4, 2.2, 1.0, r.uniform(.25, 8)])], [])
    out.append(R("linear_to_srgb", "st(r, zcm::convertLinearToSRGB(ld<vec3>(a), a[3])); st(r + 3, zcm::convertSRGBToLinear(ld<vec3>(a), a[3]));",
                 lambda i, o: inside(o.r[:3], -.0551, 1.000001, "channel") + inside(o.r[3:], 0, 1.000001, "linear channel"), 4, 6, 8.0, col, s_col))
    out.append(R("linear_to_srgb_any", "st(r, zcm::convertLinearToSRGB(ld<vec3>(a), a[3]));", lambda i, o: inside(o.r, -.0551, 1.000001, "channel"), 4, 3, big,
                 lambda i: [And(i.a[3] >= 0.25, i.a[3] <= 8)], lambda r: ([r.choice([-1.0, 2.0, 1e6, -1e-9, r.uniform(-1, 2)]) for _ in range(3)] + [2.4], [])))
    col1 = lambda i: [And(x >= 0, x <= 1) for x in i.a]
    out.append(R("linear_to_srgb_fast", "st(r, zcm::convertLinearToSRGB(ld<vec3>(a)));", lambda i, o: inside(o.r, -.3462, 1.3462, "channel"), 3, 3, 1.0, col1, lambda r: s_col(r) and (s_col(r)[0][:3], [])))
    # quaternions that are unit up to rounding
    nq = lambda i: near1(i.a[:4])
    nqq = lambda i: near1(i.a[:4]) + near1(i.a[4:8])
    out.append(R("angle", "r[0] = zcm::angle(%s);" % q, lambda i, o: inside(o.r, 0, 6.2831864, "angle"), 4, 1, 4.0, nq, s_unitish(4)))
    out.append(R("axis", "st(r, zcm::axis(%s));" % q, lambda i, o: finite(o.r, "component"), 4, 3, 4.0, nq, s_unitish(4)))
    out.append(R("euler_angles", "st(r, zcm::eulerAngles(%s)); r[3] = zcm::yaw(%s);" % (q, q),
                 lambda i, o: inside([o.r[0]], -6.2831864, 6.2831864, "pitch") + inside([o.r[1], o.r[3]], -HALF_PI, HALF_PI, "yaw") + inside([o.r[2]], -3.1415928, 3.1415928, "roll"),
                 4, 4, 4.0, nq, lambda r: (s_unitish(4)(r)[0] if r.random() < .5 else (lambda s, h: [0.0, s * h * (1 + r.choice((0, 1, 2)) * 2.0 ** -23), 0.0, h * (1 + r.choice((0, 1)) * 2.0 ** -23)])(r.choice((1, -1)), .5 ** .5), [])))
    out.append(R("slerp", "st(r, zcm::slerp(%s, %s, a[8]));" % (q, q4), lambda i, o: finite(o.r, "component"), 9, 4, 4.0,
                 lambda i: nqq(i) + [And(i.a[8] >= 0, i.a[8] <= 1)], s_unitish(4, 4, "t")))
    out.append(R("nlerp", "st(r, zcm::nlerp(%s, %s, a[8]));" % (q, q4), lambda i, o: inside(o.r, -1 - EPS, 1 + EPS, "component"), 9, 4, 4.0,
                 lambda i: [And(i.a[8] >= 0, i.a[8] <= 1), norm2([x * (1 - i.a[8]) + y * i.a[8] for x, y in zip(i.a[:4], i.a[4:8])]) >= 2.0 ** -20], s_unitish(4, 4, "t")))
    out.append(R("quat_unary", "st(r, zcm::normalize(%s)); st(r + 4, zcm::inverse(%s));" % (q, q),
                 lambda i, o: inside(o.r[:4], -1 - EPS, 1 + EPS, "normalised") + finite(o.r[4:], "inverse"), 4, 8, 2.0 ** 20, lambda i: [norm2(i.a) >= 2.0 ** -40], s_mag(4, -18, 18)))
    out.append(R("mat3_cast", "st(r, zcm::mat3_cast(%s));" % q, lambda i, o: inside(o.r, -1 - 4 * EPS, 1 + 4 * EPS, "entry"), 4, 9, 4.0, nq, s_unitish(4)))
    out.append(R("quat_rotate", "st(r, %s * ld<vec3>(a + 4));" % q, lambda i, o: finite(o.r), 7, 3, 16.0, None, s_mag(7, -10, 3)))
    out.append(R("quat_cast", "st(r, zcm::quat_cast(ld<mat3>(a)));", lambda i, o: finite(o.r, "component"), 9, 4, 2.0, None,
                 lambda r: ((lambda m: [x * (1 + r.uniform(-1, 1) * 2.0 ** -22) for x in m])(r.choice([[1, 0, 0, 0, -1, 0, 0, 0, -1], [-1, 0, 0, 0, 1, 0, 0, 0, -1],
                                                                                                   [-1, 0, 0, 0, -1, 0, 0, 0, 1], [1, 0, 0, 0, 1, 0, 0, 0, 1], [r.uniform(-2, 2) for _ in range(9)]])), [])))
    side = lambda i: near1(i.a[:3]) + [norm2(cross(i.a[3:], i.a[:3])) >= 2.0 ** -20]
    for h in ("LH", "RH"):
        out.append(R("quat_look_at_%s" % h, "st(r, zcm::quatLookAt%s(ld<vec3>(a), ld<vec3>(a + 3)));" % h, lambda i, o: finite(o.r, "component"), 6, 4, 4.0, side,
                     lambda r: (s_unitish(3)(r)[0] + [r.uniform(-2, 2) for _ in range(3)], [])))
    nz = lambda i: [norm2(i.a[:3]) >= 2.0 ** -20, norm2(i.a[3:]) >= 2.0 ** -20]

    def s_pair(r):
        u = s_unit(r, 3) if r.random() < .7 else [r.choice((0.0, 1.0, -1.0)) for _ in range(3)]
        if not any(u):
            u = [1.0, 0.0, 0.0]
        k = r.choice((1, -1, -1, 2, -2, -.5)) * (1 + r.uniform(-1, 1) * 2.0 ** -r.randint(8, 23))
        return u + [k * x * (1 + r.choice((0, 0, 1, -1)) * 2.0 ** -r.randint(8, 23)) for x in u], []
    out.append(R("from_to", "st(r, quat(ld<vec3>(a), ld<vec3>(a + 3)));", lambda i, o: inside(o.r, -1 - EPS, 1 + EPS, "component"), 6, 4, 1024.0, nz, s_pair))
    out.append(R("euler", "st(r, quat(ld<vec3>(a))); st(r + 4, zcm::angleAxis(a[0], vec3(0, 0, 1)));", lambda i, o: inside(o.r, -2.00001, 2.00001, "component"), 3, 8, 64.0))
    # matrices
    ax = lambda o: lambda i: [norm2(i.a[o:o + 3]) >= 2.0 ** -40]
    out.append(R("rotate", "st(r, zcm::rotate(mat4(), a[0], ld<vec3>(a + 1)));", lambda i, o: inside(o.r, -3 - 8 * EPS, 3 + 8 * EPS, "entry"), 4, 16, 1024.0, ax(1), s_mag(4, -8, 8)))
    out.append(R("rotate_quat", "st(r, zcm::rotate(%s, a[4], ld<vec3>(a + 5)));" % q, lambda i, o: finite(o.r, "component"), 8, 4, 1024.0, ax(5), s_mag(8, -8, 8)))
    view = lambda i: [norm2(vsub(i.a[3:6], i.a[:3])) >= 2.0 ** -20]
    near = lambda i: [And(i.a[0] >= .01, i.a[0] <= 3.125), And(i.a[1] >= .01, i.a[1] <= 100), And(i.a[2] >= .001), i.a[3] - i.a[2] >= .001]
    s_per = lambda r: ([r.uniform(.1, 3.1), r.uniform(.3, 3), r.uniform(.01, 1), r.uniform(2, 50)], [])
    for h in ("LH", "RH"):
        for d in ("NO", "ZO"):
            out.append(R("perspective%s_%s" % (h, d), "st(r, zcm::perspective%s_%s(a[0], a[1], a[2], a[3]));" % (h, d), lambda i, o: finite(o.r, "entry"), 4, 16, 2.0 ** 20, near, s_per))
            out.append(R("ortho%s_%s" % (h, d), "st(r, zcm::ortho%s_%s(a[0], a[1], a[2], a[3], a[4], a[5]));" % (h, d), lambda i, o: finite(o.r, "entry"), 6, 16, 2.0 ** 20,
                         lambda i: [fabs(i.a[2 * j + 1] - i.a[2 * j]) >= 2.0 ** -20 for j in range(3)],
                         lambda r: (sum([(lambda l: [l, l + r.choice((1, -1)) * 2.0 ** -r.randint(-4, 18)])(r.uniform(-2, 2)) for _ in range(3)], []), [])))
        out.append(R("lookAt%s" % h, "st(r, zcm::lookAt%s(ld<vec3>(a), ld<vec3>(a + 3), ld<vec3>(a + 6)));" % h, lambda i, o: inside([o.r[2], o.r[6], o.r[10]], -1 - EPS, 1 + EPS, "direction"), 9, 16, 64.0, view, s_mag(9, -2, 3)))
    out.append(R("decompose", "vec3 s, t; quat o; zcm::decompose_orthogonal(ld<mat4>(a), s, o, t); st(r, s); st(r + 3, o); st(r + 7, t);",
                 lambda i, o: finite(o.r[:3], "scale") + finite(o.r[3:7], "orientation"), 16, 10, 16.0, lambda i: [norm2(i.a[4 * j:4 * j + 3]) >= 2.0 ** -20 for j in range(3)],
                 lambda r: ((lambda u, m: sum([[x * m * s for x in u[3 * j:3 * j + 3]] + [0.0] for j, s in enumerate((1, 1, r.choice((1, 1, -1))))], []) + [1.0, 2.0, 3.0, 1.0])
                            (r.choice([[1, 0, 0, 0, 1, 0, 0, 0, 1], [0, 1, 0, 0, 0, 1, 1, 0, 0], [-1, 0, 0, 0, -1, 0, 0, 0, 1], [1, 0, 0, 0, -1, 0, 0, 0, -1], [r.uniform(-1, 1) for _ in range(9)]]), r.uniform(.1, 4)), [])))
    for n in (2, 3):
        k = n * n
        out.append(R("inverse_mat%d" % n, "st(r, zcm::inverse(%s)); r[%d] = zcm::determinant(%s);" % (M(n), k, M(n)),
                     lambda i, o, k=k: [(l, Or(fabs(o.r[k]) < 1, c)) for l, c in finite(o.r[:k], "with a determinant of at least 1, entry")], k, k + 1, 4.0,
                     None, lambda r, k=k: ([r.uniform(-2, 2) for _ in range(k)], [])))
    return out
