"""Quaternions (quat.hpp, quaternion.hpp)."""
from .lib import *  # noqa: F401,F403
from .mats import meq, embed, s_nz3
from .geom import units

Q0, Q1 = "ld<quat>(a)", "ld<quat>(a + 4)"
q0 = lambda i: i.a[:4]
q1 = lambda i: i.a[4:8]
XYZW = "xyzw"


def qeq(o, q, p="component"):
    return [("%s %s" % (p, XYZW[j]), o[j].eq(q[j])) for j in range(4)]


def qsame(o, q, p="component"):
    return [("%s %s" % (p, XYZW[j]), o[j].same(q[j])) for j in range(4)]


def pmeq(o, q, p="+-"):
    """o == q or o == -q, as equality of all products"""
    return [("%s%s%s" % (p, XYZW[x], XYZW[y]), (o[x] * o[y]).eq(q[x] * q[y])) for x in range(4) for y in range(x + 1)]


def vq(*ks):
    return lambda r: (sum([s_unit(r, 4) if k == "q" else s_unit(r, 3) if k == "v" else [r.uniform(0, 1)] if k == "t" else [r.uniform(-3, 3)] if k == "s" else s_small(r, k) for k in ks], []), [])


def quaternion_algebra():
    out = []
    for nm, op, f in (("add", "+", lambda x, y: x + y), ("sub", "-", lambda x, y: x - y)):
        out.append(Ob(nm, "st(r, %s %s %s);" % (Q0, op, Q1), lambda i, o, f=f: qsame(o.r, [f(x, y) for x, y in zip(q0(i), q1(i))]), nf=8, nr=4))
        out.append(Ob(nm + "_assign", "auto q = %s; q %s= %s; st(r, q);" % (Q0, op, Q1), lambda i, o, f=f: qsame(o.r, [f(x, y) for x, y in zip(q0(i), q1(i))]), nf=8, nr=4))
    out.append(Ob("unary", "st(r, +%s); st(r + 4, -%s);" % (Q0, Q0), lambda i, o: qsame(o.r, i.a, "plus") + qsame(o.r[4:], [-x for x in i.a], "minus"), nf=4, nr=8))
    for nm, e, f in (("mul_s", "%s * a[4]" % Q0, lambda x, s: x * s), ("s_mul", "a[4] * %s" % Q0, lambda x, s: x * s),
                     ("div_s", "%s / a[4]" % Q0, lambda x, s: x / s), ("s_div", "a[4] / %s" % Q0, lambda x, s: s / x)):
        out.append(Ob(nm, "st(r, %s);" % e, lambda i, o, f=f: qsame(o.r, [f(x, i.a[4]) for x in q0(i)]), nf=5, nr=4))
    for nm, op, f in (("mul_s_assign", "*=", lambda x, s: x * s), ("div_s_assign", "/=", lambda x, s: x / s)):
        out.append(Ob(nm, "auto q = %s; q %s a[4]; st(r, q);" % (Q0, op), lambda i, o, f=f: qsame(o.r, [f(x, i.a[4]) for x in q0(i)]), nf=5, nr=4))
    eqf = lambda i: all_(x.eq(y) for x, y in zip(q0(i), q1(i)))
    out.append(Ob("equality", "k[0] = %s == %s; k[1] = %s != %s;" % (Q0, Q1, Q0, Q1),
                  lambda i, o: [("== compares every component", kbool(o.k[0], eqf(i))), ("!= is its negation", kbool(o.k[1], Not(eqf(i))))], nf=8, nk=2))
    out.append(Ob("conjugate", "st(r, zcm::conjugate(%s));" % Q0, lambda i, o: qsame(o.r, [-i.a[0], -i.a[1], -i.a[2], i.a[3]]), nf=4, nr=4))
    out.append(Ob("product", "st(r, %s * %s);" % (Q0, Q1), lambda i, o: qeq(o.r, qmul(q0(i), q1(i)), "Hamilton product"), nf=8, nr=4, mode="real"))
    out.append(Ob("product_assign", "auto q = %s; q *= %s; st(r, q);" % (Q0, Q1), lambda i, o: qeq(o.r, qmul(q0(i), q1(i)), "Hamilton product"), nf=8, nr=4, mode="real"))
    out.append(Ob("product_assign_self", "auto q = %s; q *= q; st(r, q);" % Q0, lambda i, o: qeq(o.r, qmul(q0(i), q0(i)), "Hamilton square"), nf=4, nr=4, mode="real"))
    out.append(Ob("product_associative", "auto p = %s, q = %s, s = ld<quat>(a + 8); st(r, (p * q) * s); st(r + 4, p * (q * s));" % (Q0, Q1),
                  lambda i, o: qeq(o.r[:4], o.r[4:], "(pq)s == p(qs)"), nf=12, nr=8, mode="real"))
    out.append(Ob("norm_multiplicative", "st(r, %s * %s);" % (Q0, Q1), lambda i, o: [("|pq|^2 == |p|^2 |q|^2", norm2(o.r).eq(norm2(q0(i)) * norm2(q1(i))))], nf=8, nr=4, mode="real"))
    out.append(Ob("identity", "st(r, quat() * %s); st(r + 4, %s * quat());" % (Q0, Q0), lambda i, o: qeq(o.r[:4], i.a, "1 q") + qeq(o.r[4:], i.a, "q 1"), nf=4, nr=8, mode="real"))
    one = [con(0), con(0), con(0), con(1)]
    nz = lambda i: [norm2(q0(i)) > 0]
    out.append(Ob("inverse", "auto q = %s; st(r, q * zcm::inverse(q)); st(r + 4, zcm::inverse(q) * q);" % Q0,
                  lambda i, o: qeq(o.r[:4], one, "q q^-1") + qeq(o.r[4:], one, "q^-1 q"), nf=4, nr=8, mode="real", pre=nz))
    out.append(Ob("inverse_formula", "st(r, zcm::inverse(%s));" % Q0,
                  lambda i, o: [("inverse * |q|^2 == conjugate, %s" % XYZW[j], (o.r[j] * norm2(i.a)).eq(qconj(i.a)[j])) for j in range(4)], nf=4, nr=4, mode="real", pre=nz))
    out.append(Ob("conjugate_reverses_products", "st(r, zcm::conjugate(%s * %s)); st(r + 4, zcm::conjugate(%s) * zcm::conjugate(%s));" % (Q0, Q1, Q1, Q0),
                  lambda i, o: qeq(o.r[:4], o.r[4:], "(pq)* == q* p*"), nf=8, nr=8, mode="real"))
    return out


def quaternion_rotation():
    out = []
    v = lambda i: i.a[4:7]
    rotm = lambda i: qmat(q0(i))
    u = lambda i: [unit(q0(i))]
    # definitional: v + 2w(u x v) + 2 u x (u x v) for any quaternion; equals q v q* on unit ones
    out.append(Ob("rotate_vector", "st(r, %s * ld<vec3>(a + 4));" % Q0,
                  lambda i, o: eqs(o.r, mvec(rotm(i), v(i)), "matches the rotation matrix"), nf=7, nr=3, mode="real"))
    out.append(Ob("rotate_vector_sandwich", "st(r, %s * ld<vec3>(a + 4));" % Q0,
                  lambda i, o: eqs(o.r, qrot(q0(i), v(i)), "q v q*") + [("length preserved", norm2(o.r).eq(norm2(v(i))))],
                  nf=7, nr=3, mode="real", pre=u, approx=True, sampler=vq("q", 3)))
    out.append(Ob("inverse_rotate", "st(r, ld<vec3>(a + 4) * %s);" % Q0,
                  lambda i, o: eqs(o.r, qrot(qconj(q0(i)), v(i)), "q* v q"), nf=7, nr=3, mode="real", pre=u, approx=True, sampler=vq("q", 3)))
    out.append(Ob("rotate_round_trip", "auto q = %s; auto v = ld<vec3>(a + 4); st(r, (q * v) * q); st(r + 3, q * (v * q));" % Q0,
                  lambda i, o: eqs(o.r[:3], v(i), "(q v) q == v") + eqs(o.r[3:], v(i), "q (v q) == v"), nf=7, nr=6, mode="real", pre=u, approx=True, sampler=vq("q", 3)))
    out.append(Ob("rotate_compose", "auto p = %s, q = %s; auto v = ld<vec3>(a + 8); st(r, (p * q) * v); st(r + 3, p * (q * v));" % (Q0, Q1),
                  lambda i, o: [("(pq)v == p(qv) [%d]" % j, o.r[j].eq(o.r[3 + j])) for j in range(3)], nf=11, nr=6, mode="real",
                  pre=lambda i: [unit(q0(i)), unit(q1(i))], approx=True, sampler=vq("q", "q", 3), timeout=60))
    out.append(Ob("mat3_cast", "st(r, zcm::mat3_cast(%s));" % Q0, lambda i, o: meq(o, rotm(i)), nf=4, nr=9, mode="real"))
    out.append(Ob("mat4_cast", "st(r, zcm::mat4_cast(%s));" % Q0, lambda i, o: meq(o, embed(rotm(i))), nf=4, nr=16, mode="real"))
    out.append(Ob("mat3_cast_acts_alike", "auto q = %s; auto v = ld<vec3>(a + 4); st(r, zcm::mat3_cast(q) * v); st(r + 3, q * v);" % Q0,
                  lambda i, o: [("matrix and quaternion rotate alike [%d]" % j, o.r[j].eq(o.r[3 + j])) for j in range(3)], nf=7, nr=6, mode="real"))
    out.append(Ob("mat3_cast_homomorphism", "auto p = %s, q = %s; st(r, zcm::mat3_cast(p * q)); st(r + 9, zcm::mat3_cast(p) * zcm::mat3_cast(q));" % (Q0, Q1),
                  lambda i, o: [("product of casts, entry %d" % j, o.r[j].eq(o.r[9 + j])) for j in range(9)], nf=8, nr=18, mode="real",
                  pre=lambda i: [unit(q0(i)), unit(q1(i))], approx=True, sampler=vq("q", "q"), timeout=60))
    for n, T in ((3, "mat3"), (4, "mat4")):
        out.append(Ob("quat_cast_%s" % T, "st(r, zcm::quat_cast(zcm::%s_cast(%s)));" % (T, Q0),
                      lambda i, o: pmeq(o.r, q0(i), "cast back to +-q: "), nf=4, nr=4, mode="real", pre=u, approx=True, sampler=vq("q"), timeout=60))
    # angle-axis
    ax = lambda i: i.a[1:4]
    h = lambda i: i.a[0] * 0.5
    out.append(Ob("angleAxis", "st(r, zcm::angleAxis(a[0], ld<vec3>(a + 1)));",
                  lambda i, o: qeq(o.r, [x * sin(h(i)) for x in ax(i)] + [cos(h(i))]), nf=4, nr=4, mode="real"))
    out.append(Ob("angleAxis_unit", "st(r, zcm::angleAxis(a[0], ld<vec3>(a + 1)));",
                  lambda i, o: [("unit for a unit axis", norm2(o.r).eq(1))], nf=4, nr=4, mode="real", pre=lambda i: [unit(ax(i))], approx=True,
                  sampler=lambda r: ([r.uniform(-3, 3)] + s_unit(r, 3), [])))
    out.append(Ob("angleAxis_fixes_axis", "auto w = ld<vec3>(a + 1); st(r, zcm::angleAxis(a[0], w) * w);",
                  lambda i, o: eqs(o.r, ax(i), "the axis is fixed"), nf=4, nr=3, mode="real"))
    out.append(Ob("angleAxis_counterclockwise", "st(r, zcm::angleAxis(a[0], vec3(0, 0, 1)) * vec3(1, 0, 0));",
                  lambda i, o: [("x is cos(angle) by half angles", o.r[0].eq(cos(h(i)) * cos(h(i)) - sin(h(i)) * sin(h(i)))),
                                ("y is sin(angle) by half angles", o.r[1].eq(2 * sin(h(i)) * cos(h(i)))), ("z unchanged", o.r[2].eq(0))], nf=1, nr=3, mode="real"))
    out.append(Ob("axis", "st(r, zcm::axis(%s));" % Q0,
                  lambda i, o: [("parallel to the vector part, %s" % XYZW[j], (o.r[j] * sqrt(1 - i.a[3] * i.a[3])).eq(i.a[j])) for j in range(3)],
                  nf=4, nr=3, mode="real", pre=lambda i: [i.a[3] * i.a[3] < 1], sampler=vq("q")))
    out.append(Ob("axis_unit", "st(r, zcm::axis(%s));" % Q0, lambda i, o: [("unit length", norm2(o.r).eq(1))], nf=4, nr=3, mode="real",
                  pre=u, approx=True, sampler=vq("q")))
    out.append(Ob("axis_identity", "st(r, zcm::axis(%s));" % Q0,
                  lambda i, o: [("no rotation: (0,0,1)[%d]" % j, o.r[j].same(con(1 if j == 2 else 0))) for j in range(3)], nf=4, nr=3,
                  pre=lambda i: [Or(i.a[3] >= 1, i.a[3] <= -1)]))
    out.append(Ob("angle", "r[0] = zcm::angle(%s);" % Q0, lambda i, o: [("twice the arc cosine of w", o.r[0].eq(fn("acos", i.a[3]) * 2))], nf=4, nr=1, mode="real",
                  pre=lambda i: [i.a[3] >= -1, i.a[3] <= 1], sampler=vq("q")))
    out.append(Ob("angle_axis_round_trip", "auto q = %s; st(r, zcm::angleAxis(zcm::angle(q), zcm::axis(q)));" % Q0,
                  lambda i, o: qeq(o.r, q0(i), "recovers q"), nf=4, nr=4, mode="real", pre=lambda i: [unit(q0(i)), i.a[3] < 1, i.a[3] > -1], approx=True, sampler=vq("q")))
    out.append(Ob("rotate_quat", "st(r, zcm::rotate(%s, a[4], ld<vec3>(a + 5)));" % Q0,
                  lambda i, o: qeq(o.r, qmul(q0(i), [x / sqrt(norm2(i.a[5:8])) * sin(i.a[4] * 0.5) for x in i.a[5:8]] + [cos(i.a[4] * 0.5)]), "q * angleAxis(angle, axis/|axis|)"),
                  nf=8, nr=4, mode="real", pre=lambda i: [norm2(i.a[5:8]) > 0], sampler=s_nz3(5, 0)))
    return out


def rxyz(i):
    """Rz(roll) Ry(yaw) Rx(pitch) as a Hamilton product of half-angle quaternions"""
    z = con(0)
    h = [i.a[j] * 0.5 for j in range(3)]
    qx = [sin(h[0]), z, z, cos(h[0])]
    qy = [z, sin(h[1]), z, cos(h[1])]
    qz = [z, z, sin(h[2]), cos(h[2])]
    return qmul(qmul(qz, qy), qx)


def quaternion_construction():
    out = []
    out.append(Ob("ctor_default", "quat q; st(r, q);", lambda i, o: qsame(o.r, [con(0), con(0), con(0), con(1)], "identity"), nr=4))
    out.append(Ob("ctor_scalars", "st(r, quat(a[3], a[0], a[1], a[2])); st(r + 4, quat::wxyz(a[3], a[0], a[1], a[2])); st(r + 8, quat(a[3], vec3(a[0], a[1], a[2])));"
                                  " st(r + 12, quat(vec3(a[0], a[1], a[2]), a[3])); st(r + 16, zcm::make_quat(a));",
                  lambda i, o: sum([qsame(o.r[4 * j:4 * j + 4], i.a, n) for j, n in enumerate(("quat(w,x,y,z)", "wxyz", "quat(s,v)", "quat(v,s)", "make_quat"))], []), nf=4, nr=20))
    out.append(Ob("euler", "st(r, quat(ld<vec3>(a)));", lambda i, o: qeq(o.r, rxyz(i), "Rz(roll) Ry(yaw) Rx(pitch)") + [("unit", norm2(o.r).eq(1))], nf=3, nr=4, mode="real"))
    q = q0
    px = lambda i: q(i)[3] * q(i)[3] - q(i)[0] * q(i)[0] - q(i)[1] * q(i)[1] + q(i)[2] * q(i)[2]
    py = lambda i: (q(i)[1] * q(i)[2] + q(i)[3] * q(i)[0]) * 2
    out.append(Ob("pitch", "r[0] = zcm::pitch(%s);" % Q0, lambda i, o: [("atan2 of the rotated axes", o.r[0].eq(fn("atan2", py(i), px(i))))], nf=4, nr=1, mode="real",
                  pre=lambda i: [Or(px(i).ne(0), py(i).ne(0))], sampler=vq("q")))
    out.append(Ob("pitch_singular", "r[0] = zcm::pitch(%s);" % Q0, lambda i, o: [("2 atan2(x, w) at the singularity", o.r[0].eq(fn("atan2", i.a[0], i.a[3]) * 2))], nf=4, nr=1, mode="real",
                  pre=lambda i: [px(i).eq(0), py(i).eq(0)], sampler=lambda r: ((lambda t, u: [t, u, t, u] if r.random() < .5 else [t, -u, -t, u])(float(r.randint(-3, 3)) / 4, float(r.randint(-3, 3)) / 4), [])))
    cl = lambda x: ite(x < -1, con(-1), ite(x > 1, con(1), x))
    out.append(Ob("yaw", "r[0] = zcm::yaw(%s);" % Q0,
                  lambda i, o: [("arc sine of the clamped element", o.r[0].eq(fn("asin", cl((i.a[3] * i.a[1] - i.a[0] * i.a[2]) * 2))))], nf=4, nr=1, mode="real", sampler=vq("q")))
    out.append(Ob("yaw_clamped", "r[0] = zcm::yaw(%s);" % Q0,
                  lambda i, o: [("never NaN for finite moderate input", Not(o.r[0].isnan()))], nf=4, nr=1, mode="fp", refute=True, tier="thorough", timeout=120,
                  pre=lambda i: [And(x >= -4, x <= 4) for x in i.a]) if False else None)
    out.append(Ob("roll", "r[0] = zcm::roll(%s);" % Q0,
                  lambda i, o: [("atan2 of the rotated axes", o.r[0].eq(fn("atan2", (i.a[0] * i.a[1] + i.a[3] * i.a[2]) * 2,
                                                                          i.a[3] * i.a[3] + i.a[0] * i.a[0] - i.a[1] * i.a[1] - i.a[2] * i.a[2])))], nf=4, nr=1, mode="real", sampler=vq("q")))
    out.append(Ob("eulerAngles", "st(r, zcm::eulerAngles(%s)); r[3] = zcm::pitch(%s); r[4] = zcm::yaw(%s); r[5] = zcm::roll(%s);" % (Q0, Q0, Q0, Q0),
                  lambda i, o: [("(pitch, yaw, roll)[%d]" % j, o.r[j].same(o.r[3 + j])) for j in range(3)], nf=4, nr=6))
    # rotation taking u to v
    U, V = (lambda i: i.a[:3]), (lambda i: i.a[3:6])
    nn = lambda i: norm2(U(i)) * norm2(V(i))
    rp = lambda i: sqrt(nn(i)) + dot(U(i), V(i))
    call = "st(r, quat(ld<vec3>(a), ld<vec3>(a + 3)));"
    s2 = lambda r: (s_nz3()(r)[0] + s_nz3()(r)[0], [])
    nz = lambda i: [norm2(U(i)) > 0, norm2(V(i)) > 0]
    out.append(Ob("from_to", call,
                  lambda i, o: [("unit length", norm2(o.r).eq(1)), ("w is non-negative", o.r[3] >= 0)] +
                  [("rotation axis is u x v [%d]" % j, (o.r[j] * rp(i)).eq(cross(U(i), V(i))[j] * o.r[3])) for j in range(3)],
                  nf=6, nr=4, mode="real", pre=lambda i: nz(i) + [rp(i) > sqrt(nn(i)) * 1e-5], sampler=s2, timeout=60))
    out.append(Ob("from_to_unit", "auto q = quat(ld<vec3>(a), ld<vec3>(a + 3)); st(r, q * ld<vec3>(a));",
                  lambda i, o: eqs(o.r, V(i), "unit u is taken to unit v"), nf=6, nr=3, mode="real",
                  pre=lambda i: [unit(U(i)), unit(V(i)), dot(U(i), V(i)) > -0.999], approx=True, sampler=units(3, 3), timeout=60))
    def s_opp(r):
        u = s_nz3()(r)[0]
        k = -r.choice([1.0, 0.5, 2.0])
        return u + [k * x for x in u], []
    out.append(Ob("from_to_opposite", "vec3 u = ld<vec3>(a); st(r, quat(u, u * a[3])); st(r + 4, quat(u, u * a[3]) * u);",
                  lambda i, o: [("half turn: w is 0", o.r[3].eq(0)), ("unit length", norm2(o.r[:4]).eq(1)), ("axis orthogonal to u", dot(o.r[:3], i.a[:3]).eq(0))] +
                  [("u is taken to -u [%d]" % j, o.r[4 + j].eq(-i.a[j])) for j in range(3)],
                  nf=4, nr=7, mode="real", pre=lambda i: [norm2(i.a[:3]) > 0, i.a[3] < 0], sampler=lambda r: (s_nz3()(r)[0] + [r.choice([-1.0, -.5, -2.0])], []), timeout=60))
    # look-at. Every unit direction d and up not parallel to it is d = R e_z, up = alpha R e_y + beta R e_z (alpha > 0)
    # for exactly one rotation R, i.e. for a unit quaternion q up to sign; so the inputs are q, alpha and beta
    frame = """float x = a[0], y = a[1], z = a[2], w = a[3];
        vec3 Y(2 * (x * y - w * z), 1 - 2 * (x * x + z * z), 2 * (y * z + w * x)), Z(2 * (x * z + w * y), 2 * (y * z - w * x), 1 - 2 * (x * x + y * y));
        vec3 up(a[4] * Y.x + a[5] * Z.x, a[4] * Y.y + a[5] * Z.y, a[4] * Y.z + a[5] * Z.z);"""
    for h, d in (("LH", "Z"), ("RH", "vec3(-Z.x, -Z.y, -Z.z)")):
        out.append(Ob("quatLookAt%s" % h, frame + " st(r, zcm::quatLookAt%s(%s, up));" % (h, d),
                      lambda i, o: pmeq(o.r, q0(i), "the rotation carrying the frame onto (right, up, forward): ") + [("unit length", norm2(o.r).eq(1))],
                      nf=6, nr=4, mode="real", pre=lambda i: [unit(q0(i)), i.a[4] > 0], approx=True,
                      sampler=lambda r: (s_unit(r, 4) + [r.uniform(.3, 3), r.uniform(-2, 2)], []), timeout=60))
    # quat_cast on an arbitrary rotation matrix is covered through mat3_cast; here: the 3x3 block decides
    out.append(Ob("quat_cast_mat4_block", "auto m = ld<mat4>(a); st(r, zcm::quat_cast(m)); st(r + 4, zcm::quat_cast(mat3(m)));",
                  lambda i, o: qsame(o.r[:4], o.r[4:], "quat_cast(mat4) uses the upper 3x3 block"), nf=16, nr=8))
    return [x for x in out if x is not None]


def quaternion_interpolation():
    out = []
    t = lambda i: i.a[8]
    in01 = lambda i: [t(i) >= 0, t(i) <= 1]
    lerp = lambda i: [x * (1 - t(i)) + y * t(i) for x, y in zip(q0(i), q1(i))]
    s = vq("q", "q", "t")
    ss = vq(4, 4, "t")
    C = "zcm::%s(%s, %s, a[8])"
    out.append(Ob("lerp", "st(r, %s);" % (C % ("lerp", Q0, Q1)), lambda i, o: qeq(o.r, lerp(i), "x(1-t) + y t"), nf=9, nr=4, mode="real", pre=in01, sampler=ss))
    for nm, pre in (("above", lambda i: [t(i) > 1]), ("below", lambda i: [t(i) < 0]), ("nan", lambda i: [t(i).isnan()])):
        for f in ("lerp", "nlerp"):
            out.append(Ob("%s_rejects_%s" % (f, nm), "st(r, %s);" % (C % (f, Q0, Q1)), None, nf=9, nr=4, pre=pre, expect="assert",
                          sampler=lambda r, nm=nm: (vq("q", "q")(r)[0] + [{"above": 1.5, "below": -.5, "nan": float("nan")}[nm]], [])))
    for e in (0, 1):
        out.append(Ob("lerp_end%d" % e, "st(r, zcm::lerp(%s, %s, %d.0f));" % (Q0, Q1, e), lambda i, o, e=e: qeq(o.r, i.a[4 * e:4 * e + 4], "t=%d" % e), nf=8, nr=4, mode="real"))
    out.append(Ob("nlerp", "st(r, %s);" % (C % ("nlerp", Q0, Q1)),
                  lambda i, o: [("unit length", norm2(o.r).eq(1))] + [("positive multiple of lerp, %s" % XYZW[j], (o.r[j] * sqrt(norm2(lerp(i)))).eq(lerp(i)[j])) for j in range(4)],
                  nf=9, nr=4, mode="real", pre=lambda i: in01(i) + [norm2(lerp(i)) > 0], sampler=s))
    c = lambda i: dot(q0(i), q1(i))
    far = lambda i: [fabs(c(i)) <= 1 - 2.0 ** -22]
    th = lambda i: fn("acos", fabs(c(i)))
    z = lambda i: [ite(c(i) < 0, -y, y) for y in q1(i)]
    out.append(Ob("slerp", "st(r, %s);" % (C % ("slerp", Q0, Q1)),
                  lambda i, o: [("great-circle formula on the shorter arc, %s" % XYZW[j],
                                 (o.r[j] * sin(th(i))).eq(sin((1 - t(i)) * th(i)) * q0(i)[j] + sin(t(i) * th(i)) * z(i)[j])) for j in range(4)],
                  nf=9, nr=4, mode="real", pre=lambda i: in01(i) + far(i), sampler=s, timeout=60))
    out.append(Ob("slerp_close", "st(r, %s);" % (C % ("slerp", Q0, Q1)),
                  lambda i, o: [("linear when nearly parallel, %s" % XYZW[j], o.r[j].eq(q0(i)[j] * (1 - t(i)) + z(i)[j] * t(i))) for j in range(4)],
                  nf=9, nr=4, mode="real", pre=lambda i: in01(i) + [fabs(c(i)) > 1 - 2.0 ** -24], sampler=lambda r: ((lambda q, sg: q + [sg * x for x in q] + [r.uniform(0, 1)])([2 * x for x in s_unit(r, 4)], r.choice([1, -1])), [])))
    for e in (0, 1):
        out.append(Ob("slerp_end%d" % e, "st(r, zcm::slerp(%s, %s, %d.0f));" % (Q0, Q1, e),
                      lambda i, o, e=e: qeq(o.r, q0(i) if e == 0 else z(i), "t=%d" % e), nf=8, nr=4, mode="real", pre=far, sampler=vq("q", "q"), timeout=60))
    return out
