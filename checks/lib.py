"""Specification helpers shared by the checks."""
import itertools
import math
from zsym import terms as tm
from zsym.core import Ob
from zsym.e import *  # noqa: F401,F403
from zsym.e import E, I, And, Or, Not, Imp, Iff, ite, fn, sqrt, sin, cos, tan, b2i, fabs

T_, F_ = tm.TRUE, tm.FALSE


def con(x):
    return E(tm.fconst(float(x)))


def all_(xs):
    return And(*list(xs))


def any_(xs):
    return Or(*list(xs))


def lab(prefix, ts):
    return [("%s[%d]" % (prefix, i), t) for i, t in enumerate(ts)]


def same(os, es, p="component"):
    return lab(p, [o.same(e) for o, e in zip(os, es)])


def eqs(os, es, p="component"):
    return lab(p, [o.eq(e) for o, e in zip(os, es)])


def isame(ks, es, p="component"):
    return lab(p, [k.eq(e.sx(64) if e.w < 64 else e) for k, e in zip(ks, es)])


def kbool(k, b):
    """64-bit output k is exactly the truth value b"""
    return k.eq(b2i(b))


def dot(a, b):
    s = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]):
        s = s + x * y
    return s


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def vadd(a, b): return [x + y for x, y in zip(a, b)]
def vsub(a, b): return [x - y for x, y in zip(a, b)]
def vscale(a, s): return [x * s for x in a]
def norm2(a): return dot(a, a)


class Mat:
    """column-major n x n matrix view of a flat list"""

    def __init__(self, n, v):
        self.n = n
        self.v = v

    def __call__(self, r, c):
        return self.v[c * self.n + r]

    def col(self, c):
        return [self(r, c) for r in range(self.n)]

    def row(self, r):
        return [self(r, c) for c in range(self.n)]


def from_fn(n, f):
    return Mat(n, [f(r, c) for c in range(n) for r in range(n)])


def ident(n):
    return from_fn(n, lambda r, c: con(1 if r == c else 0))


def mmul(A, B):
    n = A.n
    return from_fn(n, lambda r, c: dot(A.row(r), B.col(c)))


def mvec(A, v):
    return [dot(A.row(r), v) for r in range(A.n)]


def det(A):
    n = A.n
    out = None
    for p in itertools.permutations(range(n)):
        sg = 1
        for x in range(n):
            for y in range(x):
                if p[y] > p[x]:
                    sg = -sg
        t = A(0, p[0])
        for x in range(1, n):
            t = t * A(x, p[x])
        out = (t if sg > 0 else -t) if out is None else (out + t if sg > 0 else out - t)
    return out


def minor(A, r, c):
    n = A.n
    rs = [x for x in range(n) if x != r]
    cs = [x for x in range(n) if x != c]
    if n == 2:
        return A(rs[0], cs[0])
    return det(from_fn(n - 1, lambda i, j: A(rs[i], cs[j])))


# quaternions as [x, y, z, w]
def qmul(p, q):
    px, py, pz, pw = p
    qx, qy, qz, qw = q
    return [pw * qx + px * qw + py * qz - pz * qy,
            pw * qy + py * qw + pz * qx - px * qz,
            pw * qz + pz * qw + px * qy - py * qx,
            pw * qw - px * qx - py * qy - pz * qz]


def qconj(q):
    return [-q[0], -q[1], -q[2], q[3]]


def qrot(q, v):
    """q v q* for any q (scaled by |q|^2)"""
    r = qmul(qmul(q, [v[0], v[1], v[2], con(0)]), qconj(q))
    return r[:3]


def qmat(q):
    """rotation matrix of a unit quaternion"""
    x, y, z, w = q
    m = [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
         [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
         [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]
    return from_fn(3, lambda r, c: m[r][c])


def unit(v):
    return norm2(v).eq(1.0)


# samplers -------------------------------------------------------------------
def s_unit(r, n):
    while True:
        v = [r.gauss(0, 1) for _ in range(n)]
        l = math.sqrt(sum(x * x for x in v))
        if l > 1e-3:
            return [x / l for x in v]


def s_small(r, n):
    k = r.random()
    if k < 0.4:
        return [float(r.randint(-3, 3)) for _ in range(n)]
    if k < 0.7:
        return [r.randint(-32, 32) / 8.0 for _ in range(n)]
    return [r.uniform(-4, 4) for _ in range(n)]
