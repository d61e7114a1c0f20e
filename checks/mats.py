"""Matrices (mat2/3/4.hpp, matrix.hpp) and transforms (matrix_transform.hpp)."""
from .lib import *  # noqa: F401,F403

NS = (2, 3, 4)


def M(n, off=0):
    return "ld<mat%d>(a + %d)" % (n, off)


def V(n, off=0):
    return "ld<vec%d>(a + %d)" % (n, off)


def mat(n, xs, off=0):
    return Mat(n, xs[off:off + n * n])


def meq(o, A, p="entry"):
    n = A.n
    return [("%s[%d][%d]" % (p, c, r), o.r[c * n + r].eq(A(r, c))) for c in range(n) for r in range(n)]


def s_inv(n, extra=0):
    """well-conditioned matrices (plus extra small numbers)"""
    def f(r):
        while True:
            m = [[r.uniform(-2, 2) for _ in range(n)] for _ in range(n)]
            if r.random() < .5:
                m = [[float(r.randint(-3, 3)) for _ in range(n)] for _ in range(n)]
            if abs(ndet(m)) > 0.3:
                return [x for row in m for x in row] + s_small(r, extra), []
    return f


def ndet(m):
    if len(m) == 1:
        return m[0][0]
    return sum((-1) ** c * m[0][c] * ndet([row[:c] + row[c + 1:] for row in m[1:]]) for c in range(len(m)))


def matrix_algebra():
    out = []
    for n in NS:
        k = n * n
        T = "mat%d" % n
        A = lambda i, n=n: mat(n, i.a)
        B = lambda i, n=n, k=k: mat(n, i.a, k)
        # entrywise operators, decided bit for bit
        for nm, op, f in (("add", "+", lambda x, y: x + y), ("sub", "-", lambda x, y: x - y)):
            out.append(Ob("%s_%s" % (T, nm), "st(r, %s %s %s);" % (M(n), op, M(n, k)),
                          lambda i, o, f=f, k=k: same(o.r, [f(i.a[j], i.a[k + j]) for j in range(k)], "entry"), nf=2 * k, nr=k))
            out.append(Ob("%s_%s_assign" % (T, nm), "auto m = %s; m %s= %s; st(r, m);" % (M(n), op, M(n, k)),
                          lambda i, o, f=f, k=k: same(o.r, [f(i.a[j], i.a[k + j]) for j in range(k)], "entry"), nf=2 * k, nr=k))
        out.append(Ob("%s_compmult" % T, "st(r, zcm::matrixCompMult(%s, %s));" % (M(n), M(n, k)),
                      lambda i, o, k=k: same(o.r, [i.a[j] * i.a[k + j] for j in range(k)], "entry"), nf=2 * k, nr=k))
        for nm, e, f in (("scale_r", "%s * a[%d]", lambda x, s: x * s), ("scale_l", "a[%d] * %s", lambda x, s: x * s),
                         ("div_r", "%s / a[%d]", lambda x, s: x / s), ("div_l", "a[%d] / %s", lambda x, s: s / x)):
            args = (M(n), k) if e.startswith("%s") else (k, M(n))
            out.append(Ob("%s_%s" % (T, nm), "st(r, %s);" % (e % args),
                          lambda i, o, f=f, k=k: same(o.r, [f(i.a[j], i.a[k]) for j in range(k)], "entry"), nf=k + 1, nr=k))
        out.append(Ob("%s_neg" % T, "st(r, -%s); st(r + %d, +%s);" % (M(n), k, M(n)),
                      lambda i, o, k=k: same(o.r, [-x for x in i.a] + list(i.a), "entry"), nf=k, nr=2 * k))
        out.append(Ob("%s_transpose" % T, "st(r, zcm::transpose(%s));" % M(n),
                      lambda i, o, n=n, A=A: same(o.r, from_fn(n, lambda r, c: A(i)(c, r)).v, "entry"), nf=k, nr=k))
        out.append(Ob("%s_equal" % T, "k[0] = %s == %s; k[1] = %s != %s;" % (M(n), M(n, k), M(n), M(n, k)),
                      lambda i, o, k=k: [("== compares every entry", kbool(o.k[0], all_(i.a[j].eq(i.a[k + j]) for j in range(k)))),
                                         ("!= is its negation", kbool(o.k[1], Not(all_(i.a[j].eq(i.a[k + j]) for j in range(k)))))],
                      nf=2 * k, nk=2))
        # products
        out.append(Ob("%s_mul" % T, "st(r, %s * %s);" % (M(n), M(n, k)), lambda i, o, A=A, B=B: meq(o, mmul(A(i), B(i))), nf=2 * k, nr=k, mode="real"))
        out.append(Ob("%s_mul_assign" % T, "auto m = %s; m *= %s; st(r, m);" % (M(n), M(n, k)),
                      lambda i, o, A=A, B=B: meq(o, mmul(A(i), B(i))), nf=2 * k, nr=k, mode="real"))
        out.append(Ob("%s_mul_self" % T, "auto m = %s; m *= m; st(r, m);" % M(n), lambda i, o, A=A: meq(o, mmul(A(i), A(i))), nf=k, nr=k, mode="real"))
        out.append(Ob("%s_mul_vec" % T, "st(r, %s * %s);" % (M(n), V(n, k)), lambda i, o, A=A, k=k: eqs(o.r, mvec(A(i), i.a[k:])), nf=k + n, nr=n, mode="real"))
        out.append(Ob("%s_vec_mul" % T, "st(r, %s * %s);" % (V(n, k), M(n)),
                      lambda i, o, A=A, k=k, n=n: eqs(o.r, [dot(i.a[k:], A(i).col(c)) for c in range(n)]), nf=k + n, nr=n, mode="real"))
        # composition through the implementation itself
        out.append(Ob("%s_assoc_vec" % T, "st(r, (%s * %s) * %s); st(r + %d, %s * (%s * %s));" % (M(n), M(n, k), V(n, 2 * k), n, M(n), M(n, k), V(n, 2 * k)),
                      lambda i, o, n=n: [("(AB)v == A(Bv) [%d]" % j, o.r[j].eq(o.r[n + j])) for j in range(n)], nf=2 * k + n, nr=2 * n, mode="real"))
        out.append(Ob("%s_identity" % T, "st(r, %s() * %s); st(r + %d, %s * %s());" % (T, M(n), k, M(n), T),
                      lambda i, o, k=k: [("identity * A == A [%d]" % j, o.r[j].eq(i.a[j])) for j in range(k)] +
                      [("A * identity == A [%d]" % j, o.r[k + j].eq(i.a[j])) for j in range(k)], nf=k, nr=2 * k, mode="real"))
        out.append(Ob("%s_transpose_product" % T, "st(r, zcm::transpose(%s * %s));" % (M(n), M(n, k)),
                      lambda i, o, A=A, B=B, n=n: meq(o, from_fn(n, lambda r, c: mmul(A(i), B(i))(c, r)), "transpose of the product"), nf=2 * k, nr=k, mode="real"))
        out.append(Ob("%s_vec_mul_transpose" % T, "st(r, %s * %s); st(r + %d, zcm::transpose(%s) * %s);" % (V(n, k), M(n), n, M(n), V(n, k)),
                      lambda i, o, n=n: [("v A == A^T v [%d]" % j, o.r[j].eq(o.r[n + j])) for j in range(n)], nf=k + n, nr=2 * n, mode="real"))
    return out


def matrix_inverse():
    out = []
    for n in NS:
        k = n * n
        T = "mat%d" % n
        A = lambda i, n=n: mat(n, i.a)
        d = lambda i, A=A: det(A(i))
        nz = lambda i, d=d: [d(i).ne(0)]
        cof = lambda i, r, c, A=A: minor(A(i), r, c) if (r + c) % 2 == 0 else -minor(A(i), r, c)
        adj = lambda i, n=n, cof=cof: from_fn(n, lambda r, c: cof(i, c, r))
        cofm = lambda i, n=n, cof=cof: from_fn(n, lambda r, c: cof(i, r, c))
        out.append(Ob("%s_determinant" % T, "r[0] = zcm::determinant(%s);" % M(n), lambda i, o, d=d: [("Leibniz formula", o.r[0].eq(d(i)))], nf=k, nr=1, mode="real"))
        out.append(Ob("%s_adjugate" % T, "st(r, zcm::adjugate(%s));" % M(n), lambda i, o, adj=adj: meq(o, adj(i), "transposed cofactor"), nf=k, nr=k, mode="real"))
        out.append(Ob("%s_adjugateTranspose" % T, "st(r, zcm::adjugateTranspose(%s));" % M(n), lambda i, o, cofm=cofm: meq(o, cofm(i), "cofactor"), nf=k, nr=k, mode="real"))
        out.append(Ob("%s_inverse" % T, "st(r, zcm::inverse(%s));" % M(n),
                      lambda i, o, adj=adj, d=d, n=n: [("inverse[%d][%d] * det == adjugate" % (c, r), (o.r[c * n + r] * d(i)).eq(adj(i)(r, c)))
                                                      for c in range(n) for r in range(n)], nf=k, nr=k, mode="real", pre=nz, sampler=s_inv(n)))
        out.append(Ob("%s_inverseTranspose" % T, "st(r, zcm::inverseTranspose(%s));" % M(n),
                      lambda i, o, cofm=cofm, d=d, n=n: [("inverseTranspose[%d][%d] * det == cofactor" % (c, r), (o.r[c * n + r] * d(i)).eq(cofm(i)(r, c)))
                                                       for c in range(n) for r in range(n)], nf=k, nr=k, mode="real", pre=nz, sampler=s_inv(n)))
        idt = ident(n)
        out.append(Ob("%s_times_inverse" % T, "auto m = %s; st(r, m * zcm::inverse(m)); st(r + %d, zcm::inverse(m) * m);" % (M(n), k),
                      lambda i, o, idt=idt, n=n, k=k: [("A A^-1 == I [%d][%d]" % (c, r), o.r[c * n + r].eq(idt(r, c))) for c in range(n) for r in range(n)] +
                      [("A^-1 A == I [%d][%d]" % (c, r), o.r[k + c * n + r].eq(idt(r, c))) for c in range(n) for r in range(n)],
                      nf=k, nr=2 * k, mode="real", pre=nz, sampler=s_inv(n)))
        # division = multiplication by the inverse: (A / B) B == A, stated entry by entry over det B
        B0 = lambda i, n=n: mat(n, i.a)
        for nm, code in (("div", "st(r, %s / %s);" % (M(n, k), M(n))), ("div_assign", "auto m = %s; m /= %s; st(r, m);" % (M(n, k), M(n)))):
            out.append(Ob("%s_%s" % (T, nm), code,
                          lambda i, o, n=n, k=k, adj=adj, d=d: [("(A/B) det B == A adj B [%d][%d]" % (c, r), (o.r[c * n + r] * d(i)).eq(mmul(mat(n, i.a, k), adj(i))(r, c)))
                                                               for c in range(n) for r in range(n)],
                          nf=2 * k, nr=k, mode="real", pre=nz, sampler=s_inv(n, k)))
        out.append(Ob("%s_div_vec" % T, "st(r, %s / %s);" % (M(n), V(n, k)),
                      lambda i, o, n=n, k=k, A=A: eqs(mvec(A(i), o.r), i.a[k:], "A (A/v) == v"), nf=k + n, nr=n, mode="real", pre=nz, sampler=s_inv(n, n)))
        out.append(Ob("%s_vec_div" % T, "st(r, %s / %s);" % (V(n, k), M(n)),
                      lambda i, o, n=n, k=k, A=A: eqs([dot(o.r, A(i).col(c)) for c in range(n)], i.a[k:], "(v/A) A == v"), nf=k + n, nr=n, mode="real", pre=nz, sampler=s_inv(n, n)))
    return out


# ------------------------------------------------------------------ affine transforms
def embed(R, t=None):
    """4x4 from a 3x3 block and a translation"""
    z, one = con(0), con(1)
    def f(r, c):
        if r < 3 and c < 3:
            return R(r, c)
        if r < 3:
            return t[r] if t is not None else z
        return one if c == 3 else z
    return from_fn(4, f)


def rot_axis(u, c, s):
    """Rodrigues matrix about the unit vector u"""
    K = [[con(0), -u[2], u[1]], [u[2], con(0), -u[0]], [-u[1], u[0], con(0)]]
    return from_fn(3, lambda r, cc: (c if r == cc else con(0)) + (1 - c) * u[r] * u[cc] + s * K[r][cc])


def s_nz3(pre=0, post=0):
    def f(r):
        while True:
            v = s_small(r, 3)
            if sum(x * x for x in v) > .1:
                return s_small(r, pre) + v + s_small(r, post), []
    return f


def affine_transforms():
    out = []
    A = lambda i: mat(4, i.a)
    v = lambda i: i.a[16:19]
    out.append(Ob("translate", "st(r, zcm::translate(ld<mat4>(a), ld<vec3>(a + 16)));",
                  lambda i, o: meq(o, mmul(A(i), embed(ident(3), v(i))), "M * T(v)"), nf=19, nr=16, mode="real"))
    out.append(Ob("scale", "st(r, zcm::scale(ld<mat4>(a), ld<vec3>(a + 16)));",
                  lambda i, o: meq(o, mmul(A(i), embed(from_fn(3, lambda r, c: v(i)[r] if r == c else con(0)))), "M * S(v)"), nf=19, nr=16, mode="real"))
    # rotate(M, angle, w) with w any non-zero axis
    u = lambda i: [x / sqrt(norm2(v(i))) for x in v(i)]
    th = lambda i: i.a[19]
    out.append(Ob("rotate", "st(r, zcm::rotate(ld<mat4>(a), a[19], ld<vec3>(a + 16)));",
                  lambda i, o: meq(o, mmul(A(i), embed(rot_axis(u(i), cos(th(i)), sin(th(i))))), "M * R(angle, axis/|axis|)"),
                  nf=20, nr=16, mode="real", pre=lambda i: [norm2(v(i)) > 0], sampler=s_nz3(16, 1), timeout=60))
    out.append(Ob("rotate_isometry", "st(r, zcm::rotate(mat4(), a[3], ld<vec3>(a)));",
                  lambda i, o: [("columns %d,%d orthonormal" % (p, q), dot([o.r[p * 4 + j] for j in range(4)], [o.r[q * 4 + j] for j in range(4)]).eq(1 if p == q else 0))
                                for p in range(4) for q in range(p + 1)] +
                  [("the axis is fixed [%d]" % j, dot([o.r[c * 4 + j] for c in range(3)], i.a[:3]).eq(i.a[j])) for j in range(3)],
                  nf=4, nr=16, mode="real", pre=lambda i: [norm2(i.a[:3]) > 0], sampler=s_nz3(0, 1), timeout=60))
    out.append(Ob("rotate_orientation", "st(r, zcm::rotate(mat4(), a[0], vec3(0, 0, 1)) * vec4(1, 0, 0, 0));",
                  lambda i, o: [("counter-clockwise about +z: x", o.r[0].eq(cos(i.a[0]))), ("counter-clockwise about +z: y", o.r[1].eq(sin(i.a[0])))],
                  nf=1, nr=4, mode="real"))
    # the same about the coordinate axes for every float angle, bit-precisely: no angle is too small to rotate by
    def s_angle(r):
        return [r.choice([-1, 1]) * 2.0 ** r.uniform(-30, 5)], []
    for k, e in ((0, "1, 0, 0"), (1, "0, 1, 0"), (2, "0, 0, 1")):
        p, q = (k + 1) % 3, (k + 2) % 3

        def cl(i, o, p=p, q=q):
            c, s_ = cos(i.a[0]), sin(i.a[0])
            want = {(p, p): c, (q, q): c, (p, q): s_, (q, p): -s_}
            return [("entry %d,%d" % (cc, rr), fabs(o.r[4 * cc + rr] - w) <= con(1e-6)) for (cc, rr), w in want.items()]
        out.append(Ob("rotate_%s" % "xyz"[k], "st(r, zcm::rotate(mat4(), a[0], vec3(%s)));" % e, cl, nf=1, nr=16,
                      pre=lambda i: [fabs(sin(i.a[0])) <= 1, fabs(cos(i.a[0])) <= 1], sampler=s_angle))
    # decompose: M = T * R * S recovers translation, scale, orientation
    def s_trs(r):
        return s_unit(r, 4) + [r.uniform(.3, 3) for _ in range(3)] + s_small(r, 3), []
    sc = lambda i: i.a[4:7]
    tr = lambda i: i.a[7:10]
    code = """auto q = ld<quat>(a); mat4 R = zcm::mat4_cast(q); mat4 m = zcm::translate(mat4(), ld<vec3>(a + 7)) * %s;
        vec3 s, t; quat o; zcm::decompose_orthogonal(m, s, o, t); st(r, s); st(r + 3, t); st(r + 6, o);"""
    for nm, body, sign in (("decompose", "zcm::scale(R, ld<vec3>(a + 4))", 1), ("decompose_flip", "zcm::scale(R, -ld<vec3>(a + 4))", -1)):
        out.append(Ob(nm, code % body,
                      lambda i, o, sign=sign: [("scale[%d]" % j, o.r[j].eq(sc(i)[j] * sign)) for j in range(3)] +
                      [("translation[%d]" % j, o.r[3 + j].eq(tr(i)[j])) for j in range(3)] +
                      [("orientation is +-q, entry %d,%d" % (p, q_), (o.r[6 + p] * o.r[6 + q_]).eq(i.a[p] * i.a[q_])) for p in range(4) for q_ in range(p + 1)],
                      nf=10, nr=10, mode="real", pre=lambda i: [unit(i.a[:4])] + [x > 0 for x in sc(i)], approx=True, sampler=s_trs, timeout=60))
    # the same without going through the other functions: translation column and scales are those of the matrix
    def s_m(r):
        return s_inv(3)(r)[0] + s_small(r, 3), []
    col = lambda i, c: i.a[3 * c:3 * c + 3]
    d3 = lambda i: det(mat(3, i.a[:9]))
    out.append(Ob("decompose_direct", """auto b = ld<mat3>(a); auto tr = ld<vec3>(a + 9); mat4 m(b); m[3] = vec4(tr.x, tr.y, tr.z, 1);
        vec3 s, t; quat o; zcm::decompose_orthogonal(m, s, o, t); st(r, s); st(r + 3, t);""",
                  lambda i, o: [("scale[%d] is the column length" % j, (o.r[j] * o.r[j]).eq(norm2(col(i, j)))) for j in range(3)] +
                  [("scale[%d] is non-negative unless the matrix reflects" % j, Imp(d3(i) > 0, o.r[j] >= 0)) for j in range(3)] +
                  [("scale[%d] is non-positive when the matrix reflects" % j, Imp(d3(i) < 0, o.r[j] <= 0)) for j in range(3)] +
                  [("translation[%d]" % j, o.r[3 + j].same(i.a[9 + j])) for j in range(3)],
                  nf=12, nr=6, mode="real", pre=lambda i: [d3(i).ne(0)], sampler=s_m, timeout=60, domain=False))
    return out


# ------------------------------------------------------------------ view transforms
def view_transforms():
    out = []
    def s_view(r):
        while True:
            e, c, u = s_small(r, 3), s_small(r, 3), s_small(r, 3)
            f = [y - x for x, y in zip(e, c)]
            x = [f[1] * u[2] - f[2] * u[1], f[2] * u[0] - f[0] * u[2], f[0] * u[1] - f[1] * u[0]]
            if sum(t * t for t in x) > .5:
                return e + c + u, []
    eye, cen, up = (lambda i: i.a[0:3]), (lambda i: i.a[3:6]), (lambda i: i.a[6:9])
    for h in ("LH", "RH"):
        sg = 1 if h == "LH" else -1
        fwd = lambda i: vsub(cen(i), eye(i))
        pre = lambda i, fwd=fwd: [norm2(cross(fwd(i), up(i))) > 0]
        def claim(i, o, sg=sg, h=h):
            m = mat(4, o.r)
            f = vsub(cen(i), eye(i))
            nf_ = [x / sqrt(norm2(f)) for x in f]
            side = cross(up(i), nf_) if h == "LH" else cross(nf_, up(i))
            s_ = [x / sqrt(norm2(side)) for x in side]
            u_ = cross(nf_, s_) if h == "LH" else cross(s_, nf_)
            rows = [s_, u_, vscale(nf_, sg)]
            z = []
            for r in range(3):
                for c in range(3):
                    z.append(("row %d, column %d" % (r, c), m(r, c).eq(rows[r][c])))
                z.append(("row %d translates the eye to the origin" % r, m(r, 3).eq(-dot(rows[r], eye(i)))))
            for c in range(4):
                z.append(("last row, column %d" % c, m(3, c).eq(1 if c == 3 else 0)))
            return z
        out.append(Ob("lookAt%s" % h, "st(r, zcm::lookAt%s(ld<vec3>(a), ld<vec3>(a + 3), ld<vec3>(a + 6)));" % h, claim,
                      nf=9, nr=16, mode="real", pre=pre, sampler=s_view, timeout=60))
        def claim2(i, o, sg=sg):
            m = mat(4, o.r)
            f = vsub(cen(i), eye(i))
            up2 = up(i)
            ve = [dot(m.row(r), list(eye(i)) + [con(1)]) for r in range(3)]
            vc = [dot(m.row(r), list(cen(i)) + [con(1)]) for r in range(3)]
            return [("the eye maps to the origin [%d]" % j, ve[j].eq(0)) for j in range(3)] + [
                ("the centre maps onto the z axis: x", vc[0].eq(0)), ("the centre maps onto the z axis: y", vc[1].eq(0)),
                ("the centre is |centre - eye| in front of the eye", And((vc[2] * vc[2]).eq(norm2(f)), vc[2] * sg > 0)),
                ("up has no sideways component", dot(m.row(0)[:3], up2).eq(0)), ("up points up", dot(m.row(1)[:3], up2) > 0)] + [
                ("rows %d,%d orthonormal" % (p, q), dot(m.row(p)[:3], m.row(q)[:3]).eq(1 if p == q else 0)) for p in range(3) for q in range(p + 1)]
        out.append(Ob("lookAt%s_frame" % h, "st(r, zcm::lookAt%s(ld<vec3>(a), ld<vec3>(a + 3), ld<vec3>(a + 6)));" % h, claim2,
                      nf=9, nr=16, mode="real", pre=pre, sampler=s_view, timeout=60))
    return out


# ------------------------------------------------------------------ projections
def projection_transforms():
    out = []
    def corner(m, p):
        return [dot(m.row(r), list(p) + [con(1)]) for r in range(4)]

    def s_ortho(r, near=True):
        l, b, n = r.uniform(-5, 1), r.uniform(-5, 1), r.uniform(-3, 3)
        if r.random() < .5:
            l, b, n = float(round(l)), float(round(b)), float(round(n))
        return [l, l + r.choice([1.0, 2.0, 3.5, -2.0]), b, b + r.choice([1.0, 2.5, 4.0, -3.0]), n, n + r.choice([1.0, 10.0, 100.0, -2.0])], []

    def struct_rows(m):
        return [("last row, column %d" % c, m(3, c).eq(1 if c == 3 else 0)) for c in range(4)] + [
            ("entry (%d,%d) is zero" % (r, c), m(r, c).eq(0)) for r in range(3) for c in range(3) if r != c]
    for nm, sg, lo in (("LH_ZO", 1, 0), ("RH_ZO", -1, 0), ("LH_NO", 1, -1), ("RH_NO", -1, -1)):
        def claim(i, o, sg=sg, lo=lo):
            l, r_, b, t, n, f = i.a
            m = mat(4, o.r)
            z = []
            for k in range(8):
                x, y, zz = (r_ if k & 1 else l), (t if k & 2 else b), (f if k & 4 else n)
                c = corner(m, [x, y, zz * sg])
                want = [1 if k & 1 else -1, 1 if k & 2 else -1, 1 if k & 4 else lo]
                z += [("box corner %d, %s" % (k, "xyz"[j]), c[j].eq(want[j])) for j in range(3)]
            return z + struct_rows(m)
        out.append(Ob("ortho%s" % nm, "st(r, zcm::ortho%s(a[0], a[1], a[2], a[3], a[4], a[5]));" % nm, claim, nf=6, nr=16, mode="real",
                      pre=lambda i: [i.a[0].ne(i.a[1]), i.a[2].ne(i.a[3]), i.a[4].ne(i.a[5])], sampler=s_ortho))
    def claim(i, o):
        l, r_, b, t = i.a
        m = mat(4, o.r)
        z = []
        for k in range(4):
            c = corner(m, [r_ if k & 1 else l, t if k & 2 else b, con(0)])
            z += [("corner %d x" % k, c[0].eq(1 if k & 1 else -1)), ("corner %d y" % k, c[1].eq(1 if k & 2 else -1))]
        return z + struct_rows(m) + [("z is negated", m(2, 2).eq(-1)), ("z is not translated", m(2, 3).eq(0))]
    out.append(Ob("ortho2d", "st(r, zcm::ortho(a[0], a[1], a[2], a[3]));", claim, nf=4, nr=16, mode="real",
                  pre=lambda i: [i.a[0].ne(i.a[1]), i.a[2].ne(i.a[3])], sampler=lambda r: (s_ortho(r)[0][:4], [])))

    def s_persp(r):
        n = r.uniform(.1, 2)
        return [r.uniform(.3, 2.5), r.uniform(.5, 2), n, n + r.uniform(.5, 100)], []
    eps = 2.0 ** -23
    for nm, sg, lo in (("LH_ZO", 1, 0), ("RH_ZO", -1, 0), ("LH_NO", 1, -1), ("RH_NO", -1, -1)):
        def claim(i, o, sg=sg, lo=lo):
            fov, asp, n, f = i.a
            h = fov * 0.5
            m = mat(4, o.r)
            z = [("x focal entry: m00 * aspect * sin(fov/2) == cos(fov/2)", (m(0, 0) * asp * sin(h)).eq(cos(h))),
                 ("y focal entry: m11 * sin(fov/2) == cos(fov/2)", (m(1, 1) * sin(h)).eq(cos(h)))]
            for d, want, w in ((n, lo, "near"), (f, 1, "far")):
                c = corner(m, [con(0), con(0), d * sg])
                z += [("%s plane depth" % w, c[2].eq(c[3] * want)), ("%s plane w is the distance" % w, c[3].eq(d))]
            for r in range(4):
                for c in range(4):
                    if (r, c) not in ((0, 0), (1, 1), (2, 2), (2, 3), (3, 2)):
                        z.append(("entry (%d,%d) is zero" % (r, c), m(r, c).eq(0)))
            return z
        out.append(Ob("perspective%s" % nm, "st(r, zcm::perspective%s(a[0], a[1], a[2], a[3]));" % nm, claim, nf=4, nr=16, mode="real",
                      pre=lambda i: [i.a[1].ne(0), i.a[1].ne(eps), i.a[2].ne(i.a[3]), sin(i.a[0] * 0.5).ne(0), cos(i.a[0] * 0.5).ne(0)],
                      sampler=s_persp))
    return out
